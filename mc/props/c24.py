"""C24: multi-dimensional smoothers keep cells apart and group as documented."""
import itertools
import math
import pickle
import warnings

import numpy as np

from cyclic_boosting.smoothing import extrapolate, multidim, onedim
from mc.core import close, ensure
from mc.props.c23 import VALUES, shrink
from mc.run import Space
from mc.tables import thin

NAN, INF = float("nan"), float("inf")
ASSUMPTIONS = ["The table passed to a fit lists every cell of the grid once, in lexicographic order; uncertainties are positive."]
SIZES = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3), (1, 4), (2, 1, 2), (1, 2, 2), (2, 2, 2), (2, 3, 1), (3, 1, 2)]


def lookup(size, values, q):
    out = []
    for r in q:
        ok = all(math.isfinite(v) and v >= 0 and math.floor(v) < s for v, s in zip(r, size))
        i = 0
        if ok:
            for v, s in zip(r, size):
                i = i * s + int(math.floor(v))
        out.append(values[i] if ok else NAN)
    return out


def prior_value(v, s, p, thr):
    sig = (v - p) / s
    return p if abs(sig) <= thr else p + math.copysign(math.sqrt(sig * sig - thr * thr), sig) * s


def mean_values(y, s, prior):
    if prior is None and (len(y) == 1 or np.allclose(y, y[0])) or prior is not None and np.allclose(y, prior):
        return list(y)
    return [shrink(y, s, i, range(len(y)), prior) for i in range(len(y))]


def double_centred(v, w):
    """Alternating removal of weighted row and column means until both vanish (at most four rounds)."""
    v = v.copy()
    for _ in range(4):
        v = v - (np.sum(v * w, axis=1) / np.sum(w, axis=1))[:, None]
        v = v - (np.sum(v * w, axis=0) / np.sum(w, axis=0))[None, :]
        if np.abs(np.sum(v * w, axis=1)).sum() + np.abs(np.sum(v * w, axis=0)).sum() <= 0.01:
            break
    return v


KINDS = {
    "values": (multidim.BinValuesSmoother, lambda size, y, s: list(y)),
    "prior": (lambda: multidim.RegularizeToPriorExpectationSmoother(0.5, threshold=1.5), lambda size, y, s: [prior_value(a, b, 0.5, 1.5) for a, b in zip(y, s)]),
    "one": (multidim.RegularizeToOneSmoother, lambda size, y, s: [prior_value(a, b, 1.0, 2.5) for a, b in zip(y, s)]),
    "mean": (multidim.WeightedMeanSmoother, lambda size, y, s: mean_values(y, s, None)),
    "mean0": (lambda: multidim.WeightedMeanSmoother(prior_prediction=0), lambda size, y, s: mean_values(y, s, 0.0)),
    "meta": (lambda: multidim.PriorExpectationMetaSmoother(multidim.WeightedMeanSmoother(), 0.5, threshold=1.5),
             lambda size, y, s: [prior_value(a, b, 0.5, 1.5) for a, b in zip(mean_values(y, s, None), s)]),
    "neutral": (lambda: multidim.Neutralize2DMetaSmoother(multidim.BinValuesSmoother()), lambda size, y, s: list(double_centred(np.reshape(y, size), np.reshape(s, size)).ravel())),
    "neutral mean": (lambda: multidim.Neutralize2DMetaSmoother(multidim.WeightedMeanSmoother(prior_prediction=0)),
                     lambda size, y, s: mean_values(double_centred(np.reshape(y, size), np.reshape(s, size)).ravel(), s, 0.0)),
}


def grids(size, per, r):
    n = int(np.prod(size))
    if n <= 4:
        ys = [list(y) for y in itertools.product(VALUES, repeat=n)]
    else:
        # all tables in which two cells differ from the rest, plus additive tables
        ys = []
        for i, j in itertools.combinations(range(n), 2):
            for a, b, c in itertools.product(VALUES, repeat=3):
                y = [c] * n
                y[i], y[j] = a, b
                ys.append(y)
    return thin(ys, max(len(ys) // per, 1), r)


def uncertainty(n, k):
    return [[0.3] * n, [[0.1, 1.0, 0.4][i % 3] for i in range(n)], [2.0 if i == n - 1 else 0.2 for i in range(n)]][k]


def query(size):
    axes = [[-1.0, -0.2, 0.0, 0.6, 1.0, 1.99, s - 1.0, s - 0.5, float(s), s + 3.0, NAN, INF] for s in size]
    if len(size) == 3:
        axes = [a[2:9:2] + [-1.0, NAN] for a in axes]
    return np.array(list(itertools.product(*axes)))


def cases(tier):
    out = []
    i = 0
    for kind in KINDS:
        for size in SIZES:
            if kind.startswith("neutral") and len(size) != 2:
                continue
            for k in range(3):
                for y in grids(size, 100 if tier == "quick" else 1500, i):
                    out.append({"kind": kind, "size": list(size), "y": y, "s": k})
                i += 1
    return out


def table(size, s, w=None):
    cells = np.array(list(itertools.product(*[range(v) for v in size])), dtype=float)
    n = len(cells)
    return np.c_[cells, np.ones(n) if w is None else w, s]


def check(case, rec):
    mk, ref = KINDS[case["kind"]]
    size = tuple(case["size"])
    y = np.array(case["y"], dtype=float)
    n = len(y)
    s = uncertainty(n, case["s"])
    X = table(size, s)
    q = query(size)
    tag = "%s on %s values %s uncertainties %s" % (case["kind"], size, y, s)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = mk()
        Xc, yc, qc = X.copy(), y.copy(), q.copy()
        m.fit(Xc, yc)
        got = m.predict(qc)
        rec.op()
        rec.trace()
        want = lookup(size, ref(size, y, s), q)
        close(got, want, tag, 1e-9, 1e-9)
        ensure((Xc == X).all() and (yc == y).all() and ((qc == q) | (np.isnan(qc) & np.isnan(q))).all(), lambda: tag + ": modifies its input")
        rec.state(case["kind"], size, y, s)
        # refit with another shape, then again with this one
        other = tuple(v + 1 for v in size)
        m.fit(table(other, [0.3] * int(np.prod(other))), np.arange(float(np.prod(other))))
        m.predict(q)
        m.fit(X.copy(), y.copy())
        close(m.predict(q), want, tag + ": after refitting", 1e-9, 1e-9)
        close(pickle.loads(pickle.dumps(m)).predict(q), want, tag + ": after pickling", 1e-9, 1e-9)
        rec.op(2)
    rec.outcome(case["kind"])


# --- grouping ---------------------------------------------------------------

ONEDIM = {
    "values": onedim.BinValuesSmoother,
    "mean": onedim.WeightedMeanSmoother,
    "neighbors": onedim.WeightedMeanSmootherNeighbors,
    "ortho": onedim.OrthogonalPolynomialSmoother,
    "isotonic": onedim.IsotonicRegressor,
    "line": extrapolate.LinearExtrapolator,
}
GSIZES = [(1, 2), (2, 2), (2, 3), (3, 3), (2, 4), (2, 2, 2), (1, 2, 3), (2, 1, 3)]


def group_cases(tier):
    out = []
    i = 0
    for est in ONEDIM:
        for size in GSIZES:
            groups = int(np.prod(size[:-1]))
            for cls in ("plain", "cb"):
                for empty in range(2 ** min(groups, 3)):
                    for y in grids(size, 8 if tier == "quick" else 120, i):
                        out.append({"est": est, "size": list(size), "cls": cls, "empty": empty, "y": y, "s": i % 3})
                    i += 1
    return out


def check_group(case, rec):
    size = tuple(case["size"])
    y = np.array(case["y"], dtype=float)
    n = len(y)
    s = uncertainty(n, case["s"])
    cells = list(itertools.product(*[range(v) for v in size]))
    groups = sorted(set(c[:-1] for c in cells))
    dead = {g for j, g in enumerate(groups) if case["empty"] >> j & 1}
    # rows without weight inside a group with weight stay
    w = np.array([0.0 if c[:-1] in dead else [1.0, 0.0, 2.0][(c[-1] + 1) % 3] if len([1 for d in cells if d[:-1] == c[:-1]]) > 1 else 1.0 for c in cells])
    for g in groups:
        idx = [i for i, c in enumerate(cells) if c[:-1] == g]
        if g not in dead and w[idx].sum() == 0:
            w[idx[0]] = 1.0
    X = table(size, s, w)
    ndim = len(size)
    make = lambda: multidim.GroupBySmoother(ONEDIM[case["est"]](), ndim) if case["cls"] == "plain" else multidim.GroupBySmootherCB(ONEDIM[case["est"]](), ndim)
    tag = "grouping %s with %s on %s values %s weights %s" % (case["cls"], case["est"], size, y, w)
    if case["cls"] == "cb" and len(dead) == len(groups):
        rec.outcome("no weight at all")
        return
    q = np.array([list(g) + [v] for g in itertools.product(*[range(v + 1) for v in size[:-1]]) for v in (0.0, 1.0, size[-1] - 1.0, 0.3, size[-1] + 2.0)], dtype=float)
    # interleave the groups
    q = q[np.argsort([(7 * i) % len(q) if len(q) % 7 else i for i in range(len(q))], kind="stable")]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = np.full(len(q), NAN)
        for g in groups:
            if case["cls"] == "cb" and g in dead:
                continue
            idx = [i for i, c in enumerate(cells) if c[:-1] == g]
            one = ONEDIM[case["est"]]()
            one.fit(X[idx][:, ndim - 1 :], y[idx])
            sel = (q[:, :-1] == np.array(g)).all(axis=1)
            want[sel] = one.predict(q[sel][:, [-1]])
        m = make()
        Xc, yc, qc = X.copy(), y.copy(), q.copy()
        m.fit(Xc, yc)
        got = np.asarray(m.predict(qc), dtype=float)
        rec.op()
        rec.trace()
        close(got, want, tag + ": prediction at %s" % q.tolist(), 1e-9, 1e-9)
        ensure((Xc == X).all() and (yc == y).all() and (qc == q).all(), lambda: tag + ": modifies its input")
        for j in (0, len(q) // 2):
            close(m.predict(q[[j]]), [want[j]], tag + ": single row %s" % q[j], 1e-9, 1e-9)
        rec.state(case["cls"], case["est"], size, y, w)
    rec.outcome(case["est"] + " " + case["cls"])


def spaces(tier):
    from mc.props.c23 import warm

    return [
        Space("cells", lambda: cases(tier), check, "8 smoothers x 13 grid shapes in two and three dimensions x 3 uncertainty patterns x all (small grids) or pairwise varied cell values; queries inside, between, outside and missing", warm=warm),
        Space("groups", lambda: group_cases(tier), check_group, "6 one-dimensional smoothers x 8 grid shapes x both grouping smoothers x every set of empty groups x varied cell values", warm=warm),
    ]
