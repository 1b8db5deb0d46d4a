"""C11: sample weights act as multiplicities."""
import itertools

import numpy as np
import pandas as pd

from cyclic_boosting.base import ConvergenceError
from cyclic_boosting.common_smoothers import NoSmootherChoice
from mc.core import close, ensure
from mc.est import C, GENERIC, HM, O, REGS, U, frame, make, raw_predict, targets, warm_basic
from mc.run import Space
from mc.tables import PROPS, STRUCTS, query

ASSUMPTIONS = [
    "weights are non-negative with a positive sum; the dispersion model takes no weights",
    "additive models derive the uncertainty of a bin from squared weights (one weighted measurement, not several), so their shrinkage differs from repeated rows by design; they are compared without smoothing, CBLocPoissonRegressor (built-in shrinkage) only for zero weights",
    "the base value of quantile regressors interpolates between repeated target values, hence they are compared only for zero weights",
    "numerical minimisation (quantile and custom losses) is compared with tolerance 2e-3",
]
KINDS = REGS + ["expo"]
ROWS = [(0, 0, 0), (1, 0, 1), (0, 1, 1), (1, 1, 0), (-1, 0, 1)]


def table(kind, n, v):
    rows = (ROWS if v == 0 else [(1, 0, 1), (0, 1, 0), (1, 1, 1), (0, 0, 1), (0, -1, 0)])[:n]
    X = frame({"a": [r[0] for r in rows], "b": [r[1] for r in rows], "c": [r[2] for r in rows]}, kind)
    X["p"] = np.array([0.3, 0.6, 0.45, 0.9, 0.2])[:n]
    t = targets(kind)
    if kind in ("classifier", "gclf"):
        y = np.array([1.0, 0, 0, 1, 1])[:n]
    else:
        y = np.array([t[0], t[2], t[1], t[1] * 3, t[2]])[:n]
    return X, y


def model(kind, case, weighted):
    kw = {}
    if weighted:
        kw["weight_column"] = "w"
    if case["prior"] and kind != "gbs":
        kw["prior_prediction_column"] = "p"
    if kind == "expo":
        kw["external"] = ["b"]
    if case.get("raw"):
        kw["smoother_choice"] = NoSmootherChoice()
    return make(kind, STRUCTS[case["struct"]], PROPS[case["props"]], maximal_iterations=2 if kind in GENERIC else 3, **kw)


def fit(m, X, y):
    """The fitted model, or None if training was refused as diverging."""
    try:
        return m.fit(X, y)
    except ConvergenceError:
        return None


def both(rec, m1, m2, what):
    """False if neither trained; both must have come to the same conclusion."""
    ensure((m1 is None) == (m2 is None), "%s: only one of the two trainings diverged" % what)
    if m1 is None:
        rec.outcome("diverged")
        rec.trace()
    return m1 is not None


def int_cases(tier):
    out = []
    k = 0
    for kind in KINDS:
        if kind == "locpoisson":
            continue
        for struct in STRUCTS:
            for props in ("u", "c", "o", "m"):
                ws = [w for w in itertools.product((1, 2, 3), repeat=4) if len(set(w)) > 1]
                step = 5 if tier == "quick" else 2
                for w in ws[k % step :: step]:
                    out.append({"kind": kind, "struct": struct, "props": props, "prior": k % 2, "v": k // 2 % 2, "w": list(w), "raw": kind in ("location", "gbs")})
                k += 1
    for kind in ("mgen", "agen", "gclf"):
        for struct in ("1d", "2d"):
            for w in ([2, 1, 3, 1], [1, 3, 1, 2], [1, 1, 2, 1], [3, 1, 1, 1]) if tier != "quick" else ([2, 1, 3, 1], [1, 2, 1, 3]):
                out.append({"kind": kind, "struct": struct, "props": "u", "prior": k % 2, "v": 0, "w": list(w), "raw": kind == "agen"})
                k += 1
    return out


def queries(kind):
    Q = query(kind, a=(-1, 0, 1, 5), b=(0, 1, -1), c=(0, 1))
    Q["p"] = np.linspace(0.1, 0.9, len(Q))
    return Q


def tol(kind):
    return (2e-3, 2e-3) if kind in GENERIC else (1e-6, 1e-8)


def check_int(case, rec):
    kind = case["kind"]
    X, y = table(kind, 4, case["v"])
    w = case["w"]
    Xw = X.copy()
    Xw["w"] = np.array(w, dtype=float)
    idx = [i for i, k in enumerate(w) for _ in range(k)]
    m1 = fit(model(kind, case, True), Xw, y)
    m2 = fit(model(kind, case, False), X.iloc[idx].reset_index(drop=True), y[idx])
    Xr = X.iloc[idx].reset_index(drop=True)
    Xr["w"] = 1.0
    m3 = fit(model(kind, case, True), Xr, y[idx])
    rec.op(3)
    if not both(rec, m1, m2, "weights %s" % w):
        return
    both(rec, m2, m3, "unit weights")
    Q = queries(kind)
    p1, p2, p3 = (raw_predict(kind, m, Q) for m in (m1, m2, m3))
    rec.op(3)
    close(p3, p2, "%s: weight one against no weight" % kind, 1e-9, 1e-10)
    close(p1, p2, "%s: weights %s against repeated rows" % (kind, w), *tol(kind))
    close(m1.insample_loss_, m2.insample_loss_, "%s: final loss with weights %s" % (kind, w), *tol(kind))
    rec.trace()
    rec.state(kind, p1)


def zero_cases(tier):
    out = []
    k = 0
    for kind in KINDS + GENERIC:
        for struct in STRUCTS if kind not in GENERIC else ("1d", "2d"):
            for props in ("u", "c", "o", "m") if kind not in GENERIC else ("u",):
                for w in itertools.product((0, 1, 2), repeat=4):
                    if 0 not in w or sum(w) == 0:
                        continue
                    k += 1
                    if k % (5 if kind not in GENERIC else 40) and tier == "quick":
                        continue
                    if k % 3 and tier != "quick" and kind in GENERIC:
                        continue
                    out.append({"kind": kind, "struct": struct, "props": props, "prior": k % 2, "v": k // 2 % 2, "w": list(w)})
    return out


def check_zero(case, rec):
    """The target and prior of zero-weight rows do not matter."""
    kind = case["kind"]
    X, y = table(kind, 4, case["v"])
    w = np.array(case["w"], dtype=float)
    X["w"] = w
    m1 = fit(model(kind, case, True), X, y)
    t = targets(kind)
    Q = queries(kind)
    if m1 is None:
        rec.outcome("diverged")
        rec.trace()
        return
    p1 = raw_predict(kind, m1, Q)
    ensure(np.isfinite(p1).all(), "%s: weights %s give non-finite predictions" % (kind, case["w"]))
    for alt in (t[-1], t[0]):
        y2 = np.where(w == 0, alt, y)
        X2 = X.copy()
        X2.loc[w == 0, "p"] = 0.55 if alt == t[0] else 0.85
        if kind == "expo":
            X2.loc[w == 0, "price"] = 0.3
        m2 = fit(model(kind, case, True), X2, y2)
        rec.op(2)
        both(rec, m1, m2, "zero-weight rows changed")
        close(raw_predict(kind, m2, Q), p1, "%s: changing target and prior of zero-weight rows (weights %s)" % (kind, case["w"]), *tol(kind))
    rec.trace()
    rec.state(kind, p1)


def drop_cases(tier):
    """Dropping zero-weight rows: rows repeat bins of weighted ones, so bins stay."""
    out = []
    k = 0
    for kind in KINDS:
        for struct in STRUCTS:
            for props in ("u", "c", "o", "m"):
                for z in range(1, 16):
                    k += 1
                    if k % 2 and tier == "quick":
                        continue
                    out.append({"kind": kind, "struct": struct, "props": props, "prior": k % 2, "v": k // 2 % 2, "z": z})
    return out


def check_drop(case, rec):
    kind = case["kind"]
    X, y = table(kind, 4, case["v"])
    z = [i for i in range(4) if case["z"] >> i & 1]
    idx = list(range(4)) + z
    t = targets(kind)
    Xz = X.iloc[idx].reset_index(drop=True)
    yz = np.r_[y, [t[(i + 1) % len(t)] for i in z]]
    Xz.loc[4:, "p"] = 0.77
    Xz["w"] = [1.0, 2.0, 1.0, 3.0] + [0.0] * len(z)
    Xd = X.copy()
    Xd["w"] = [1.0, 2.0, 1.0, 3.0]
    m1 = fit(model(kind, case, True), Xz, yz)
    m2 = fit(model(kind, case, True), Xd, y)
    rec.op(2)
    if not both(rec, m1, m2, "zero-weight rows dropped"):
        return
    Q = queries(kind)
    close(raw_predict(kind, m1, Q), raw_predict(kind, m2, Q), "%s: dropping the zero-weight rows" % kind, *tol(kind))
    rec.trace()
    rec.state(kind, raw_predict(kind, m1, Q))


OWN = [[(2, 0, 1)], [(2, 2, 0)], [(0, 2, 1), (2, 1, 0)], [(1, 0, 2)], [(2, 2, 2)]]


def own_cases(tier):
    """Rows of weight zero in bins of their own."""
    out = []
    for kind in KINDS + GENERIC:
        structs = list(STRUCTS) if kind not in GENERIC else ["1d", "2d"]
        for struct in structs:
            for i, own in enumerate(OWN):
                for v in (0, 1):
                    if kind in GENERIC and (v or i > 2) and tier == "quick":
                        continue
                    for prior in (0, 1) if kind not in GENERIC else (0,):
                        out.append({"kind": kind, "struct": struct, "props": "u", "prior": prior, "v": v, "own": [list(r) for r in own], "raw": True})
    # cells that no other row occupies although their coordinates occur: the grid stays, smoothing included
    cells = list(itertools.product((0, 1), repeat=3))
    k = 0
    for kind in KINDS + GENERIC:
        for struct in list(STRUCTS) if kind not in GENERIC else ["3d"]:
            for props in ("u", "c", "o", "m") if kind not in GENERIC else ("u",):
                for v in (0, 1):
                    for cell in cells:
                        k += 1
                        if tier == "quick" and (k % 3):
                            continue
                        out.append({"kind": kind, "struct": struct, "props": props, "prior": k % 2, "v": v, "own": [list(cell)]})
    return out


def check_own(case, rec):
    """A bin of weight zero leaves the others alone.

    New bins are compared without smoothing, as they change what is smoothed.
    """
    kind = case["kind"]
    X, y = table(kind, 4, case["v"])
    X["w"] = [1.0, 2.0, 1.0, 3.0]
    m2 = fit(model(kind, case, True), X, y)
    more = X.iloc[: len(case["own"])].copy()
    for j, c in enumerate("abc"):
        more[c] = np.array([r[j] for r in case["own"]], dtype=float)
    more["w"] = 0.0
    Xo = pd.concat([X, more], ignore_index=True)
    yo = np.r_[y, y[::-1][: len(more)]]
    with np.errstate(all="ignore"):
        m1 = fit(model(kind, case, True), Xo, yo)
    rec.op(2)
    if not both(rec, m1, m2, "rows of weight zero in bins of their own"):
        return
    Q = query(kind, a=(-1, 0, 1), b=(0, 1, -1), c=(0, 1))
    Q["p"] = np.linspace(0.1, 0.9, len(Q))
    close(raw_predict(kind, m1, Q), raw_predict(kind, m2, Q), "%s: rows %s of weight zero added" % (kind, case["own"]), *tol(kind))
    rec.trace()
    rec.state(kind, raw_predict(kind, m1, Q))


def named_cases(tier):
    out = []
    for kind in KINDS + GENERIC:
        if kind == "expo":
            continue
        for order in itertools.permutations(["a", "b", "w", "p"]) if tier != "quick" else (["a", "b", "w", "p"], ["w", "a", "p", "b"], ["p", "w", "b", "a"]):
            for weighted in (0, 1):
                for prior in (0, 1) if kind != "gbs" else (0,):
                    for props in ("u", "c") if kind not in GENERIC else ("u",):
                        out.append({"kind": kind, "order": list(order), "weighted": weighted, "prior": prior, "props": props})
    return out


def check_named(case, rec):
    """Without feature groups, all columns are features except those of weights and priors."""
    kind = case["kind"]
    X, y = table(kind, 4, 0)
    X["w"] = [1.0, 2.0, 1.0, 3.0]
    cols = [c for c in case["order"] if (c != "w" or case["weighted"]) and (c != "p" or case["prior"])]
    if kind == "nbinomc":
        cols.append("mu")
    props = {c: v for c, v in PROPS[case["props"]].items() if c in cols}
    kw = {"maximal_iterations": 2}
    if case["weighted"]:
        kw["weight_column"] = "w"
    if case["prior"]:
        kw["prior_prediction_column"] = "p"
    explicit = [c for c in cols if c in "ab"]
    if kind == "nbinomc":  # the mean is an ordinary column for it
        explicit.append("mu")
        props["mu"] = PROPS["c"]["a"]
    m1 = fit(make(kind, None, props, **kw), X[cols], y)
    m2 = fit(make(kind, explicit, props, **kw), X[cols], y)
    rec.op(2)
    if not both(rec, m1, m2, "groups by default"):
        return
    tag = "%s columns %s weights %s prior %s" % (kind, cols, case["weighted"], case["prior"])
    Q = queries(kind)
    Q["w"] = np.arange(len(Q)) % 4 + 0.5
    ensure([tuple(f.feature_group) for f in m1.features] == [(c,) for c in explicit], lambda: "%s: groups %s" % (tag, [f.feature_group for f in m1.features]))
    close(raw_predict(kind, m1, Q[cols]), raw_predict(kind, m2, Q[cols]), tag + ": all other columns by default against naming them", 1e-9, 1e-10)
    Q2 = Q[cols].copy()
    if case["weighted"]:
        Q2["w"] = 7.0
    close(raw_predict(kind, m1, Q2), raw_predict(kind, m1, Q[cols]), tag + ": weights of rows to predict", 1e-12, 1e-13)
    rec.trace()
    rec.state(kind, raw_predict(kind, m1, Q[cols]))


def spaces(tier):
    return [
        Space("multiplicities", lambda: int_cases(tier), check_int, "all weight vectors over {1,2,3} on 4 rows (deterministic share per configuration), 12 estimators x structures x flags, with/without prior", warm=warm_basic),
        Space("zero-weight", lambda: zero_cases(tier), check_zero, "all weight vectors over {0,1,2} on 4 rows with a zero (share per configuration); targets and priors of zero rows replaced"),
        Space("dropping", lambda: drop_cases(tier), check_drop, "all subsets of 4 rows added again with weight zero and other targets, against dropping them"),
        Space("own-bins", lambda: own_cases(tier), check_own, "rows of weight zero in 5 patterns of new bins (without smoothing) and in every cell of a 2x2x2 grid (with it), against dropping them"),
        Space("default-groups", lambda: named_cases(tier), check_named, "15 estimators without feature groups x weights on/off x prior on/off x column orders, against naming the remaining columns"),
    ]
