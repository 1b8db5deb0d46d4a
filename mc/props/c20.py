"""C20: quantile and custom-loss models minimise their loss in every bin."""
import itertools
import warnings

import numpy as np
import pandas as pd
import scipy.optimize

from cyclic_boosting.common_smoothers import NoSmootherChoice
from cyclic_boosting.learning_rate import constant_learn_rate_one
from mc.core import close, ensure, fail
from mc.est import LOGIT, MNL, MULT, U, costs_abs, costs_logloss, costs_sq, link_of, make, unlink_of, warm_basic
from mc.run import Space
from mc.tables import thin

ASSUMPTIONS = [
    "Minimising means: at least as good as a standard quasi-Newton minimiser started at the neutral effect (the kinks of the quantile loss can stop such a minimiser early).",
    "Weights are positive and the supplied losses are convex.",
]
GROUPS = {"1d": [["a"]], "2d": [["a", "b"]], "seq": [["b"], ["a", "b"]], "2x1d": [["a"], ["b"]]}
WEIGHTS = [[1.0] * 6, [1.0, 2.0, 0.5, 3.0, 1.0, 0.25]]
YS = {"mult": [0.0, 1.0, 2.5, 7.0], "add": [-3.0, 0.5, 2.0, 4.0], "prob": [0.0, 1.0]}


def costs_asym(prediction, y, weights):
    """A smooth asymmetric loss."""
    d = prediction - y
    return np.sum(np.where(d > 0, 3.0, 1.0) * d * d * weights) / np.sum(weights)


LOSSES = {"sq": costs_sq, "abs": costs_abs, "asym": costs_asym, "log": costs_logloss}


def pinball(q):
    def f(prediction, y, weights):
        d = y - prediction
        return np.sum(np.where(d > 0, q * d, (q - 1) * d) * weights) / np.sum(weights)

    return f


def configs():
    out = []
    for q in (0.1, 0.5, 0.8):
        out += [("aquant", q), ("mquant", q)]
    for l in ("sq", "asym", "abs"):
        out += [("agen", l), ("mgen", l)]
    out += [("gclf", "log"), ("gclf", "sq")]
    return out


def tables(kind, n):
    """All multisets of n rows x targets (a in {-1,0,2}, b in {0,1})."""
    ys = len(YS["prob"] if kind in LOGIT else YS["mult"])
    rows = list(itertools.product((-1, 0, 2), (0, 1)))
    uni = [(r, k) for r in rows for k in range(ys)]
    for t in itertools.combinations_with_replacement(range(len(uni)), n):
        yield {"rows": [list(uni[i][0]) for i in t], "y": [uni[i][1] for i in t]}


def cases(tier):
    q = tier == "quick"
    out = []
    i = 0
    for kind, par in configs():
        t2, t3 = list(tables(kind, 2)), list(tables(kind, 3))
        t4 = [dict(rows=a["rows"] + b["rows"], y=a["y"] + b["y"]) for a, b in zip(t2, t2[7:] + t2[:7])]
        t5 = [dict(rows=a["rows"] + b["rows"], y=a["y"] + b["y"]) for a, b in zip(t2 * 3, t3[::3])]
        for g in GROUPS:
            for mnl in (False, True):
                per = 6 if q else 60
                for ts in (t2, t3, t4, t5):
                    for t in thin(ts, max(len(ts) // per, 1), 7 * i):
                        if len(set(t["y"])) < 2 and kind in LOGIT:
                            continue
                        out.append({"kind": kind, "par": par, "groups": g, "mnl": mnl, "w": i % 2, "t": t})
                    i += 1
    return out


PERTURB = [0.0, 2e-16, -2e-16, 1e-15, -1e-14, 1e-12, 1e-10, -1e-9, 1e-7, -1e-7, 1e-5, -1e-5, 1e-3, -1e-3, 1e-2, -1e-2]


def minimised(kind, smooth, f, y, others, w):
    """Effects found by the standard minimiser for equivalent and for neighbouring problems.

    Rounding decides where the minimiser stops at the kinks of a loss, hence
    the neighbouring problems for losses with kinks.
    """
    mult = kind in MULT or kind in LOGIT
    starts = [0.5, 1.0] if kind in LOGIT else [1.0] if mult else [0.0]
    n = len(y)
    orders = (list(range(n)), list(range(n))[::-1])
    perturb, scales = (PERTURB[:8], (1.0,)) if smooth else (PERTURB, (1.0, 1.0 + 1e-9, 1.003))
    for s, order, start, c in itertools.product(perturb, orders, starts, scales):
        yy, oo, ww = y[order], others[order] * (1.0 + s), w[order]

        def obj(p):
            return c * f(p * oo if mult else p + oo, yy, ww)

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p = float(scipy.optimize.minimize(obj, np.array([start])).x[0])
        if not mult:
            yield p
            continue
        e = np.log(max(p, 1e-5))
        if kind in MULT:
            e = min(max(e, np.log(0.5)), np.log(2))
        yield float(e)


def lowest(kind, par, f, y, others, w):
    """The lowest loss that any effect allowed in one cycle can reach."""
    if kind in MULT:
        cand = np.clip(np.r_[y / others, 1.0], 0.5, 2.0)
        model = lambda p: f(p * others, y, w)
        lo, hi = 0.5, 2.0
    else:
        cand = np.r_[y - others, 0.0]
        model = lambda p: f(p + others, y, w)
        lo, hi = cand.min() - 1.0, cand.max() + 1.0
    best = min(model(p) for p in cand)
    if not isinstance(par, float) and par != "abs":
        best = min(best, scipy.optimize.minimize_scalar(model, bounds=(lo, hi), method="bounded", options={"xatol": 1e-9}).fun)
    return best


def check(case, rec):
    kind, par = case["kind"], case["par"]
    rows = np.array(case["t"]["rows"], dtype=float)
    n = len(rows)
    ys = YS["prob"] if kind in LOGIT else YS["mult"] if kind in MULT else YS["add"]
    y = np.array([ys[k] for k in case["t"]["y"]])
    w = np.array(WEIGHTS[case["w"]][:n])
    X = pd.DataFrame({"a": rows[:, 0], "b": rows[:, 1], "w": w})
    f = pinball(par) if isinstance(par, float) else LOSSES[par]
    kw = {"quantile": par} if isinstance(par, float) else {"costs": f}
    if kind == "mgen" and y.max() == 0:
        return
    gs = GROUPS[case["groups"]]
    props = {"a": U | MNL if case["mnl"] else U, "b": U}
    tag = "%s %s groups %s" % (kind, par, gs)

    def train(limit):
        m = make(kind, gs, props, maximal_iterations=limit, weight_column="w", smoother_choice=NoSmootherChoice(),
                 learn_rate=constant_learn_rate_one, minimal_factor_change=-1.0, minimal_loss_change=-1.0, **kw)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.fit(X, y)
        rec.op()
        return m

    try:
        m = train(1)
    except Exception as e:
        from cyclic_boosting.base import ConvergenceError

        if isinstance(e, ConvergenceError) and isinstance(par, float):
            rec.outcome("convergence error")
            return
        raise
    if m.iteration_ != 1:
        rec.outcome("diverged")
        return
    rec.trace()
    lk, ul = link_of(kind), unlink_of(kind)
    base = float(m.global_scale_link_)
    ensure(np.isfinite(base), lambda: "%s: global scale %r" % (tag, base))
    link_pred = np.full(n, base)
    scale = 1.0 + np.abs(y).max()
    for g in gs:
        cell = [tuple(int(v) for v in r) if (r >= 0).all() else None for r in X[g].values]
        present = [c for c in cell if c is not None]
        size = [max(c[j] for c in present) + 1 for j in range(len(g))] if present else []
        cells = list(itertools.product(*[range(s) for s in size])) if present else []
        allc = cells + [None]
        Q = pd.DataFrame({"a": np.zeros(len(allc)), "b": 0.0, "w": 1.0})
        for j, c in enumerate(g):
            Q[c] = [float(k[j]) if k is not None else -1.0 for k in allc]
        con = np.asarray(m.get_feature_contributions(Q)[" ".join(g)], dtype=float)
        eff = dict(zip(allc, lk(con)))
        for c in allc:
            idx = np.array([i for i in range(n) if cell[i] == c], dtype=int)
            if len(idx) == 0 or (c is None and case["mnl"] and "a" in g):
                close(eff[c], 0.0, "%s: effect of cell %s without learned rows" % (tag, c), 0, 1e-12)
                continue
            yy, ww, oo = y[idx], w[idx], link_pred[idx]
            got = f(ul(oo + eff[c]), yy, ww)
            neutral = f(ul(oo), yy, ww)
            rec.state(kind, par, yy, np.round(oo, 5), eff[c])
            # the classifier applies the minimising factor to the odds: only comparable for equal other predictions
            ensure((kind in LOGIT and np.ptp(oo) > 1e-9) or got <= neutral + 1e-6 * scale,
                   lambda: "%s: cell %s with targets %s: loss %r, neutral effect has %r" % (tag, c, yy, got, neutral))
            if kind not in LOGIT and got <= lowest(kind, par, f, yy, ul(oo), ww) + 1e-5 * scale:
                rec.outcome("minimised")
                continue
            reached = []
            smooth = par in ("sq", "asym", "log")
            for e in minimised(kind, smooth, f, yy, ul(oo), ww):
                reached.append(f(ul(oo + e), yy, ww))
                if got <= reached[-1] + 1e-5 * scale:
                    break
            else:
                fail("%s: cell %s with targets %s weights %s, other predictions %s: effect %r with loss %r, minimisation reaches %s" % (tag, c, yy, ww, ul(oo), eff[c], got, sorted(set(np.round(reached, 8)))))
            rec.outcome("as far as the minimiser gets" if len(reached) == 1 else "as far as the minimiser gets for a neighbouring problem")
        link_pred = link_pred + np.array([eff[c] for c in cell])
    # a single group never loses what it has reached
    if len(gs) == 1 and kind != "mquant":
        prev = bin_losses(m, X, y, w, gs[0], f)
        for limit in (2, 3):
            m2 = train(limit)
            if m2.iteration_ != limit:
                break
            cur = bin_losses(m2, X, y, w, gs[0], f)
            ensure((cur <= prev + 1e-5 * scale).all(), lambda: "%s: losses per bin %s after %d cycles, %s before" % (tag, cur, limit, prev))
            prev = cur
    rec.outcome("%s %s" % (kind, par))


def bin_losses(m, X, y, w, g, f):
    p = np.asarray(m.predict(X), dtype=float)
    key = [tuple(r) if (r >= 0).all() else None for r in X[g].values]
    rows = [[i for i, k in enumerate(key) if k == c] for c in sorted(set(key), key=str)]
    return np.array([f(p[r], y[r], w[r]) for r in rows])


def spaces(tier):
    return [
        Space("bins", lambda: cases(tier), check,
              "quantile (3 quantiles) and custom-loss (3 losses, 2 for classification) models x 4 group structures x learned or not learned missing values x 2 weightings x interleaved subsets of all 2- to 5-row tables over 4 targets",
              warm=warm_basic),
    ]
