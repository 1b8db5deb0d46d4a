"""C22: the price model: exponents act on the price ratio only, with the documented sign."""
import functools
import itertools
import math
import warnings

import numpy as np
import pandas as pd
import scipy.optimize
import scipy.special

from cyclic_boosting.base import ConvergenceError
from cyclic_boosting.common_smoothers import NoSmootherChoice
from cyclic_boosting.learning_rate import constant_learn_rate_one
from cyclic_boosting.price import CBExponential
from mc.core import close, ensure
from mc.est import C, MNL, U, make, warm_basic
from mc.run import Space
from mc.tables import thin

NAN, INF = float("nan"), float("inf")
ASSUMPTIONS = [
    "The sign of a supplied prior exponent is negative in realistic use; positive ones are included to check that the sign is kept.",
    "The estimate of an exponent is compared with the exact minimiser of its documented objective within the stopping tolerance of the search.",
]
# standard groups, external groups
STRUCTS = {
    "b|a": ([["b"]], [["a"]]),
    "a|a": ([["a"]], [["a"]]),
    "a,b|ab": ([["a"], ["b"]], [["a", "b"]]),
    "ab|b,a": ([["a", "b"]], [["b"], ["a"]]),
}
RATIOS = [0.5, 0.8, 1.0, 1.3, NAN]
YS = [0.0, 1.0, 5.0, 20.0]
WEIGHTS = [None, [1.0, 2.0, 0.5, 3.0, 1.0]]
QUERY_RATIOS = [0.25, 0.5, 0.9, 1.0, 1.1, 2.0, 3.0]


def tables(n, ny=4):
    rows = list(itertools.product((0, 1), (0, 1)))
    uni = [(r, x, k) for r in rows for x in range(len(RATIOS)) for k in range(ny)]
    for t in itertools.combinations_with_replacement(range(len(uni)), n):
        if not any(uni[i][2] for i in t):
            continue
        yield {"rows": [list(uni[i][0]) for i in t], "r": [uni[i][1] for i in t], "y": [uni[i][2] for i in t]}


@functools.lru_cache(None)
def pool():
    t1, t2 = list(tables(1)), list(tables(2))
    join = lambda a, b: {k: a[k] + b[k] for k in a}
    t3 = [join(t2[i], t1[(7 * i) % len(t1)]) for i in range(len(t2))]
    t4 = [join(t2[i], t2[(13 * i + 5) % len(t2)]) for i in range(len(t2))]
    t5 = [join(t3[i], t2[(29 * i + 3) % len(t2)]) for i in range(len(t3))]
    return [t2, t3, t4, t5]


def frame(case):
    t = case["t"]
    n = len(t["y"])
    rows = np.array(t["rows"], dtype=float)
    if case.get("miss"):
        rows[0, 0] = -1.0
    X = pd.DataFrame({"a": rows[:, 0], "b": rows[:, 1], "price": [RATIOS[i] for i in t["r"]]})
    y = np.array([YS[k] for k in t["y"]])
    kw = {}
    w = WEIGHTS[case["w"]]
    if w is not None:
        X["w"] = w[:n]
        kw["weight_column"] = "w"
    if case["prior"]:
        X["pe"] = ([-0.5, -2.0, -1.0, -0.1, -3.0] if case["prior"] == 1 else [-0.5, 2.0, 0.0, 0.3, -3.0])[:n]
        kw["prior_exponent_colname"] = "pe"
    if case["ac"]:
        kw["a"], kw["c"] = 1.2, 0.1
    return X, y, kw


def train(X, y, struct, props, limit, **kw):
    std, ext = STRUCTS[struct]
    m = make("expo", std, props, external=ext, maximal_iterations=limit, minimal_factor_change=-1.0, minimal_loss_change=-1e30, **kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            m.fit(X, y)
        except ConvergenceError:
            return None
    return m if m.iteration_ == limit else None


# --- predictions ------------------------------------------------------------


def pred_cases(tier):
    q = tier == "quick"
    out, i = [], 0
    for struct, prior, w, ac, smooth, miss in itertools.product(STRUCTS, (0, 1, 2), (0, 1), (0, 1), (0, 1), (0, 1)):
        for ts in pool():
            for t in thin(ts, max(len(ts) // (2 if q else 20), 1), 17 * i):
                out.append({"struct": struct, "prior": prior, "w": w, "ac": ac, "smooth": smooth, "miss": miss, "t": t})
            i += 1
    return out


def check_pred(case, rec):
    X, y, kw = frame(case)
    if case["prior"] == 2 and (X["pe"] <= 0).any():
        X["pe"] = [-0.5, -2.0, -1.0, -0.1, -3.0][: len(X)]
    if not case["smooth"]:
        kw["smoother_choice"] = NoSmootherChoice()
    props = {"a": U | MNL if case["w"] else C, "b": U}
    m = train(X, y, case["struct"], props, 4, **kw)
    if m is None:
        rec.outcome("diverged")
        return
    rec.op()
    std, ext = STRUCTS[case["struct"]]
    cells = list(itertools.product((-1.0, 0.0, 1.0, 2.0), (0.0, 1.0)))
    tag = "price model %s" % case["struct"]
    for pe in ([None] if not case["prior"] else [-0.7, -2.0, 0.5, 0.0]):
        def q(ratio):
            Q = pd.DataFrame({"a": [c[0] for c in cells], "b": [c[1] for c in cells], "price": ratio, "w": 1.0})
            if pe is not None:
                Q["pe"] = pe
            return Q

        one = np.asarray(m.predict(q(1.0)), dtype=float)
        con = m.get_feature_contributions(q(1.0))
        want = np.exp(m.global_scale_link_) * np.prod([np.asarray(con[" ".join(g)], dtype=float) for g in std], axis=0)
        close(one, want, tag + ": demand at ratio one", 1e-9, 1e-12)
        k = (-1.0 if pe is None else pe) * np.prod([np.asarray(con[" ".join(g) + "_external"], dtype=float) for g in ext], axis=0)
        sign = -1.0 if pe is None else np.sign(pe)
        ensure((np.sign(k) == sign).all(), lambda: "%s: exponents %s" % (tag, k))
        last = None
        for r in QUERY_RATIOS:
            got = np.asarray(m.predict(q(r)), dtype=float)
            close(got, one * np.exp(k * (r - 1.0)), "%s: demand at ratio %g with prior exponent %s" % (tag, r, pe), 1e-9, 1e-12)
            if last is not None and sign <= 0:
                ensure((got <= last * (1 + 1e-12)).all(), lambda: "%s: demand rises with the price: %s -> %s at ratio %g" % (tag, last, got, r))
            last = got
            rec.state(case["struct"], case["prior"], r, got)
        for r in (NAN, INF, -INF):
            close(m.predict(q(r)), one, "%s: demand at ratio %s" % (tag, r), 1e-12, 0)
        # mixed ratios in one call
        Q = q(1.0)
        Q["price"] = [QUERY_RATIOS[i % len(QUERY_RATIOS)] for i in range(len(Q))]
        close(m.predict(Q), one * np.exp(k * (Q["price"].values - 1.0)), tag + ": rows of several ratios", 1e-9, 1e-12)
    rec.trace()
    # missing ratios train like ratio one
    have = lambda g, sel: set(tuple(r) if (r >= 0).all() else None for r in X.loc[sel, g].values)
    every = all(have(g, X["price"].notna()) == have(g, X["price"].notna() | True) for g in ext)
    if not case["smooth"] and X["price"].isna().any() and every:
        X1 = X.copy()
        X1["price"] = X1["price"].fillna(1.0)
        m1 = train(X1, y, case["struct"], props, 4, **kw)
        rec.op()
        Q = q(0.6)
        if m1 is not None:
            close(m.predict(Q), m1.predict(Q), tag + ": missing ratios compared with ratio one in training", 1e-9, 1e-12)
            rec.outcome("missing ratios")
    rec.outcome(case["struct"])


# --- estimates --------------------------------------------------------------


def est_cases(tier):
    q = tier == "quick"
    out, i = [], 0
    for struct, prior, w, ac, var, miss in itertools.product(STRUCTS, (0, 1), (0, 1), (0, 1), (0.1, 1.0), (0, 1)):
        for ts in pool():
            for t in thin(ts, max(len(ts) // (3 if q else 30), 1), 23 * i):
                out.append({"struct": struct, "prior": prior, "w": w, "ac": ac, "var": var, "miss": miss, "t": t})
            i += 1
    return out


def clip_effect(v, before, first, multi):
    lo, hi = (0.1, 100.0) if multi else (0.01, 1000.0)
    v = min(max(v, math.log(0.5)), math.log(2))
    if not first:
        v = min(max(v, math.log(lo) - before), math.log(hi) - before)
    return v


def exponent(y, f, x, k, prior, s, var):
    """Exact minimiser of the documented objective, its curvature and the resulting effect."""

    def grad(l):
        mu = f * np.exp(k * l * x)
        data = np.sum(-2 * k * x * mu * (y - mu) * s)
        pri = np.mean(2 * (k * (k * l - prior) + l - 1 + (np.log(k / prior) + 2 * math.log(l)) / l) / var)
        return data + pri

    def hess(l):
        mu = f * np.exp(k * l * x)
        w = k * x
        data = np.sum(2 * w * w * mu * mu * s - 2 * w * w * mu * (y - mu) * s)
        pri = np.mean(2 * (k * k + 1 + (2 - (np.log(k / prior) + 2 * math.log(l))) / l / l) / var)
        return data + pri

    # only comparable if there is a single stationary point in reach
    grid = np.exp(np.linspace(math.log(0.02), math.log(16), 400))
    g = np.array([grad(v) for v in grid])
    change = np.nonzero(np.sign(g[1:]) != np.sign(g[:-1]))[0]
    if len(change) != 1 or min(hess(v) for v in grid[:: 8]) <= 0:
        return None
    l = scipy.optimize.brentq(grad, grid[change[0]], grid[change[0] + 1], xtol=1e-12)
    h = hess(l)
    med = scipy.special.gammaincinv(l * l * h + 2, 0.5) / (l * h + 1.67834)
    return l, h, math.log(med)


def check_est(case, rec):
    X, y, kw = frame(case)
    n = len(y)
    props = {"a": U, "b": U}
    std, ext = STRUCTS[case["struct"]]
    a, c = (1.2, 0.1) if case["ac"] else (1.0, 0.0)
    w = X["w"].values if "w" in X else np.ones(n)
    x = X["price"].values - 1.0
    ok = np.isfinite(x)
    x = np.where(ok, x, 0.0)
    prior = X["pe"].values if "pe" in X else -np.ones(n)
    groups = [(g, False) for g in std] + [(g, True) for g in ext]
    prev = [dict() for _ in groups]
    for limit in (1, 2):
        m = train(X, y, case["struct"], props, limit, smoother_choice=NoSmootherChoice(), learn_rate=constant_learn_rate_one,
                  var_prior_exponent=case["var"], **kw)
        if m is None:
            rec.outcome("diverged")
            return
        rec.op()
        rec.trace()
        fac = np.full(n, float(m.global_scale_link_))
        expo = np.zeros(n)
        now, cells_of = [], []
        for (g, e), before in zip(groups, prev):
            cell = [tuple(r) if (r >= 0).all() else None for r in X[g].values]
            allc = sorted(set(cell), key=str)
            Q = pd.DataFrame({"a": np.zeros(len(allc)), "b": 0.0, "price": 1.0, "pe": -1.0, "w": 1.0})
            for j, col in enumerate(g):
                Q[col] = [q[j] if q is not None else -1.0 for q in allc]
            con = m.get_feature_contributions(Q)[" ".join(g) + ("_external" if e else "")]
            now.append(dict(zip(allc, np.log(np.asarray(con, dtype=float)))))
            cells_of.append(cell)
            add = np.array([before.get(q, 0.0) for q in cell])
            if e:
                expo = expo + add
            else:
                fac = fac + add
        for (g, e), before, after, cell in zip(groups, prev, now, cells_of):
            k = prior * np.exp(expo)
            p = np.exp(fac + k * x)
            for q in after:
                idx = np.array([i for i in range(n) if cell[i] == q])
                step = after[q] - before.get(q, 0.0)
                tag = "price model %s cycle %d %s group %s cell %s (targets %s, ratios %s)" % (case["struct"], limit, "external" if e else "standard", g, q, y[idx], X["price"].values[idx])
                if not e:
                    v = a + c * p[idx]
                    al = 2.0 + np.sum(w[idx] * y[idx] / v)
                    be = 1.67834 + np.sum(w[idx] * p[idx] / v)
                    want = clip_effect(math.log(scipy.special.gammaincinv(al, 0.5) / be), before.get(q, 0.0), limit == 1, len(g) > 1)
                    close(step, want, tag, 1e-6, 1e-7)
                    rec.outcome("standard effect")
                    continue
                if not ok[idx].any() or not (np.abs(x[idx]) > 0).any():
                    # nothing to learn from: only the prior and the limits act
                    rec.outcome("no price variation")
                    if limit == 1 and len(ext) == 1:
                        close(step, 0.0, tag + ": effect without price information", 0, 2e-2)
                    continue
                res = exponent(y[idx], np.exp(fac[idx]), x[idx], k[idx], prior[idx], ok[idx] * w[idx] / (a * p[idx] + c * p[idx] ** 2), case["var"])
                if res is None:
                    rec.outcome("several optima")
                    continue
                l, h, med = res
                want = clip_effect(med, before.get(q, 0.0), limit == 1, len(g) > 1)
                rec.state(case["struct"], limit, g, y[idx], x[idx], round(want, 6))
                close(step, want, tag + ": exponent effect (optimum %g)" % l, 0, 1e-3 + 0.02 / (h * l))
                rec.outcome("exponent")
            add = np.array([after[q] - before.get(q, 0.0) for q in cell])
            if e:
                expo = expo + add
            else:
                fac = fac + add
        prev = now


def flat_cases(tier):
    out = []
    i = 0
    for struct in STRUCTS:
        for ext in (True, False):
            for w in range(2):
                for smooth in (True, False):
                    for prior in (None, -0.7):
                        for ts in pool()[1:]:
                            for t in thin(ts, len(ts) // (8 if tier == "quick" else 120), 11 * i):
                                out.append({"struct": struct, "ext": ext, "w": w, "smooth": smooth, "prior": prior, "t": t})
                            i += 1
    return out


def check_flat(case, rec):
    """Where the ratio is one (or unknown) everywhere, the price model is the demand model."""
    t = case["t"]
    n = len(t["y"])
    rows = np.array(t["rows"], dtype=float)
    X = pd.DataFrame({"a": rows[:, 0], "b": rows[:, 1], "price": [1.0 if r % 2 else NAN for r in t["r"]]})
    y = np.array([YS[k] for k in t["y"]])
    kw = {"a": 1.3, "c": 0.2, "maximal_iterations": 3, "minimal_factor_change": -1.0, "minimal_loss_change": -1.0}
    if not case["smooth"]:
        kw["smoother_choice"] = NoSmootherChoice()
    if case["w"]:
        X["w"] = WEIGHTS[1][:n] + [1.0] * (n - 5)
        kw["weight_column"] = "w"
    std, ext = STRUCTS[case["struct"]]
    kw2 = dict(kw)
    if case["prior"] is not None:
        X["pe"] = case["prior"]
        kw2["prior_exponent_colname"] = "pe"
    props = {"a": U, "b": U}
    tag = "price model %s %s exponent groups, weights %s, table %s" % (case["struct"], "with" if case["ext"] else "without", case["w"], t)
    res = []
    for m in (
        CBExponential("price", [tuple(g) for g in std], [tuple(g) for g in ext] if case["ext"] else None, feature_properties=props, **kw2),
        make("nbinom", std, props, **kw),
    ):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                res.append(m.fit(X.copy(), y.copy()).predict(X.copy()))
            except ConvergenceError:
                res.append(None)
    rec.op(4)
    rec.trace()
    rec.state(case["struct"], case["ext"], case["w"], X.values, y)
    if res[0] is None or res[1] is None:
        ensure(res[0] is None and res[1] is None, lambda: tag + ": only one of the models converges")
        rec.outcome("diverged")
        return
    close(res[0], res[1], tag + ": prediction without price variation", 1e-9, 1e-12)
    rec.outcome("flat")


def spaces(tier):
    return [
        Space("predictions", lambda: pred_cases(tier), check_pred,
              "4 structures x default/negative/positive prior exponents x weights x variance parameters x smoothing x missing bins x interleaved subsets of 2- to 5-row tables over 5 price ratios and 4 demands; 7 query ratios plus non-finite ones for every cell",
              warm=warm_basic),
        Space("estimates", lambda: est_cases(tier), check_est,
              "4 structures x 2 prior exponents x weights x variance parameters x 2 prior widths x missing bins x interleaved subsets of the tables; every step of 2 cycles",
              warm=warm_basic),
        Space("flat", lambda: flat_cases(tier), check_flat, "4 structures with and without exponent groups x weights x smoothing x prior exponents x interleaved subsets of the tables, ratio one or missing: same model as the demand regressor"),
    ]
