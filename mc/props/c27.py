"""C27: quantile-parameterised distributions are valid and hit the given quantiles."""
import itertools
import math
import warnings

import numpy as np

from cyclic_boosting import quantile_matching as qm
from mc.core import close, ensure, raises
from mc.run import Space
from mc.tables import thin

ASSUMPTIONS = ["Triplets are strictly increasing and strictly inside the bounds; probabilities lie strictly between zero and one."]
P = np.array([0.001, 0.01, 0.05, 0.1, 0.25, 0.3, 0.4, 0.5, 0.6, 0.7, 0.75, 0.9, 0.95, 0.99, 0.999])
ALPHAS = [0.05, 0.1, 0.25, 0.4]
UNIT = [0.02, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.98]
POSITIVE = [0.01, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 8.0, 9.0, 16.0, 100.0]
REAL = [-20.0, -3.0, -1.0, -0.5, 0.0, 0.4, 1.0, 2.0, 3.0, 7.0, 50.0]
# exactly and nearly symmetric in the linear, logarithmic and logit sense
NEAR = [0.0, 1e-16, 3e-16, 1e-14, -1e-14, 1e-9, -1e-9, 1e-5]
BOUNDS = {"S": [(0.0,), (-3.0,), (2.5,)], "B": [(0.0, 1.0), (-2.0, 3.0), (10.0, 1010.0)]}


def triplets(kind):
    if kind == "U":
        base = list(itertools.combinations(REAL, 3))
        base += [(m - d * (1 + e), m, m + d) for m in (0.0, 1.3, -7.0) for d in (0.1, 1.0, 10.0) for e in NEAR]
    elif kind == "S":
        base = list(itertools.combinations(POSITIVE, 3))
        base += [(m / f * (1 + e), m, m * f) for m in (0.7, 1.0, 30.0) for f in (1.1, 2.0, 10.0) for e in NEAR]
    else:
        base = list(itertools.combinations(UNIT, 3))
        base += [(0.5 - d * (1 + e), 0.5, 0.5 + d) for d in (0.1, 0.25, 0.4) for e in NEAR]
    return base


def make(dist, alpha, t, bounds, version, shape):
    kw = {} if version is None else {"version": version}
    if dist == "S":
        return qm.J_QPD_S(alpha, *t, l=bounds[0], **kw)
    if dist == "B":
        return qm.J_QPD_B(alpha, *t, l=bounds[0], u=bounds[1], **kw)
    if shape is not None:
        kw["shape"] = shape
    if dist == "XU":
        return qm.J_QPD_extended_U(alpha, *t, **kw)
    if dist == "XS":
        return qm.J_QPD_extended_S(alpha, *t, l=bounds[0], **kw)
    return qm.J_QPD_extended_B(alpha, *t, l=bounds[0], u=bounds[1], **kw)


def place(kind, t, bounds):
    if kind == "S":
        return tuple(bounds[0] + v for v in t)
    if kind == "B":
        return tuple(bounds[0] + (bounds[1] - bounds[0]) * v for v in t)
    return tuple(t)


def cases(tier):
    out = []
    i = 0
    step = 2 if tier == "quick" else 1
    for dist in ("S", "B", "XU", "XS", "XB"):
        kind = dist[-1]
        versions = [(None, None), ("normal", None), ("logistic", None)]
        if dist.startswith("X"):
            versions += [("sinhlogistic", s) for s in (-1.5, -0.3, 0, 0.4, 2)]
        for alpha in ALPHAS:
            for bounds in BOUNDS.get(kind, [()]):
                for version, shape in versions:
                    for t in thin(triplets(kind), step, i):
                        out.append({"dist": dist, "alpha": alpha, "bounds": list(bounds), "version": version, "shape": shape, "t": list(t)})
                    i += 1
    return out


def support(kind, bounds):
    return (bounds[0] if bounds else -math.inf), (bounds[1] if kind == "B" else math.inf)


def check(case, rec):
    kind = case["dist"][-1]
    bounds = tuple(case["bounds"])
    t = place(kind, case["t"], bounds)
    a = case["alpha"]
    tag = "%s through %s at %s bounds %s version %s shape %s" % (case["dist"], t, a, bounds, case["version"], case["shape"])
    lo, hi = support(kind, bounds)
    width = (hi - lo) if math.isfinite(hi - lo) else t[2] - t[0]
    if not (t[0] < t[1] < t[2]):
        rec.outcome("degenerate")
        return
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        d = make(case["dist"], a, t, bounds, case["version"], case["shape"])
        rec.op()
        rec.trace()
        # near-symmetric triplets may be treated as symmetric
        hit = np.asarray(d.ppf(np.array([a, 0.5, 1 - a])), dtype=float)
        ensure(np.abs(hit - t).max() <= 1e-8 * max(width, abs(t[2] - t[0])), lambda: "%s: quantiles are %s" % (tag, hit))
        v = np.asarray(d.ppf(P), dtype=float)
        ensure(v.shape == P.shape and not np.isnan(v).any(), lambda: "%s: quantile function %s" % (tag, v))
        ensure((v >= lo).all() and (v <= hi).all(), lambda: "%s: quantile function leaves the support: %s" % (tag, v))
        ensure((np.diff(v)[np.isfinite(v[1:]) & np.isfinite(v[:-1])] >= 0).all() and not (np.diff(v[np.isfinite(v)]) < 0).any(), lambda: "%s: quantile function decreases: %s" % (tag, v))
        # away from the ends of the support the increase is strict and the distribution function inverts it
        inside = np.isfinite(v)
        if math.isfinite(lo):
            inside &= v - lo > 1e-6 * (t[0] - lo)
        if math.isfinite(hi):
            inside &= hi - v > 1e-6 * (hi - t[2])
        inside &= np.abs(v) < 1e6 * (1 + abs(t[2] - t[0]))
        ensure(inside[(P >= a - 1e-12) & (P <= 1 - a + 1e-12)].all(), lambda: "%s: quantile function %s" % (tag, v))
        ensure((np.diff(v[inside]) > 0).all(), lambda: "%s: quantile function is flat: %s" % (tag, v))
        c = np.asarray(d.cdf(v[inside]), dtype=float).reshape(-1)
        ensure(np.abs(c - P[inside]).max() <= 2e-6, lambda: "%s: distribution function at the quantiles is %s instead of %s" % (tag, c, P[inside]))
        # scalars
        for p in (0.1, 0.5, 0.7):
            s = np.asarray(d.ppf(p), dtype=float)
            ensure(s.size == 1, lambda: "%s: scalar gives %s" % (tag, s))
            close(s.reshape(-1), [v[list(P).index(p)]], "%s: scalar quantile" % tag, 1e-12, 1e-12)
            x = float(v[list(P).index(p)])
            if math.isfinite(x) and lo < x < hi:
                close(np.asarray(d.cdf(x), dtype=float).reshape(-1), np.asarray(d.cdf(np.array([x])), dtype=float).reshape(-1), "%s: scalar distribution function" % tag, 1e-12, 1e-12)
    rec.state(case["dist"], a, t, bounds, case["version"], case["shape"])
    rec.outcome(case["dist"])


# --- several triplets at once -----------------------------------------------


def vector_cases(tier):
    out = []
    i = 0
    for dist in ("S", "B"):
        for alpha in ALPHAS:
            for bounds in BOUNDS[dist]:
                for version in (None, "logistic"):
                    ts = triplets(dist)
                    for n in (1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6):
                        size = 20 if tier == "quick" else 200
                        for k in range(size):
                            pick = [(i + 17 * k + 61 * j) % len(ts) for j in range(n)]
                            out.append({"dist": dist, "alpha": alpha, "bounds": list(bounds), "version": version, "ts": [list(ts[p]) for p in pick]})
                        i += 1
    return out


def check_vector(case, rec):
    bounds = tuple(case["bounds"])
    ts = [place(case["dist"], t, bounds) for t in case["ts"]]
    a, n = case["alpha"], len(ts)
    tag = "%s through %s at %s bounds %s version %s" % (case["dist"], ts, a, bounds, case["version"])
    if not all(t[0] < t[1] < t[2] for t in ts):
        rec.outcome("degenerate")
        return
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        one = [make(case["dist"], a, t, bounds, case["version"], None) for t in ts]
        cols = [np.array([t[k] for t in ts]) for k in range(3)]
        keep = [c.copy() for c in cols]
        many = make(case["dist"], a, cols, bounds, case["version"], None)
        p = np.array([0.1, 0.5, 0.8, 0.95])
        table = np.array([[float(d.ppf(v)) for d in one] for v in p])
        rec.op(2)
        rec.trace()
        close(np.asarray(many.ppf(p)).reshape(len(p), n), table, tag + ": quantile table", 1e-12, 1e-12)
        close(np.asarray(many.ppf(0.8)).reshape(-1), table[2], tag + ": one quantile for all", 1e-12, 1e-12)
        q = p[np.arange(n) % 4]
        close(np.asarray(many.ppf(q, inner=True)).reshape(-1), table[np.arange(n) % 4, np.arange(n)], tag + ": one quantile each", 1e-12, 1e-12)
        close(np.asarray(many.ppf(0.8, inner=True)).reshape(-1), table[2], tag + ": same quantile each", 1e-12, 1e-12)
        x = cols[1]
        ct = np.array([[float(d.cdf(v)) for d in one] for v in x])
        close(np.asarray(many.cdf(x)).reshape(n, n), ct, tag + ": probability table", 1e-12, 1e-12)
        close(np.asarray(many.cdf(x, inner=True)).reshape(-1), np.full(n, 0.5), tag + ": probability of the median", 1e-8, 1e-8)
        y = float(x[0])
        close(np.asarray(many.cdf(y)).reshape(-1), ct[0], tag + ": one value for all", 1e-12, 1e-12)
        close(np.asarray(many.cdf(y, inner=True)).reshape(-1), ct[0], tag + ": one value for all, inner", 1e-12, 1e-12)
        ensure(all((c == k).all() for c, k in zip(cols, keep)), lambda: tag + ": modifies its input")
    rec.state(case["dist"], a, ts, bounds, case["version"])
    rec.outcome("%s x %d" % (case["dist"], n))


# --- refused triplets -------------------------------------------------------


def refused_cases(tier):
    out = []
    for dist in ("S", "B", "XU", "XS", "XB"):
        for t in itertools.permutations([0.2, 0.4, 0.7]):
            out.append({"dist": dist, "t": list(t), "version": None})
        out.append({"dist": dist, "t": [0.2, 0.4, 0.7], "version": "cauchy"})
    return out


def check_refused(case, rec):
    bounds = {"S": (0.0,), "B": (0.0, 1.0), "U": ()}[case["dist"][-1]]
    rec.op()
    t = case["t"]
    err = raises(lambda: make(case["dist"], 0.2, t, bounds, case["version"], None))
    ok = t == sorted(t) and case["version"] is None
    ensure((err is None) == ok, lambda: "%s: %r" % (case, err))
    if t != sorted(t):
        ensure(isinstance(err, ValueError), lambda: "%s: %r" % (case, err))
        if case["dist"] in ("S", "B"):
            # a single disordered triplet among ordered ones is enough
            cols = [np.array([a, b, a]) for a, b in zip(sorted(t), t)]
            ensure(isinstance(raises(lambda: make(case["dist"], 0.2, cols, bounds, None, None)), ValueError), lambda: "%s hidden among others is accepted" % case)
    rec.state("refused", case)
    rec.outcome("accepted" if ok else "refused")


# --- the base distribution --------------------------------------------------


def base_cases(tier):
    return [{"shape": s, "alpha": a} for s in (-3, -1.5, -0.3, -0.01, 0, 0.01, 0.4, 1, 2, 5) for a in ALPHAS]


def check_base(case, rec):
    s, a = case["shape"], case["alpha"]
    with np.errstate(all="ignore"):
        for d, what in ((qm.SinhLogistic(s), "sinh-logistic"), (qm.BaseDist(qm.SinhLogistic(s), a), "scaled sinh-logistic")):
            rec.op()
            x = d.ppf(P)
            tag = "%s shape %s" % (what, s)
            logit = 0.25 * np.log(P / (1 - P))
            want = np.arcsinh(s * logit) / s if s > 0 else np.sinh(s * logit) / s if s < 0 else logit
            if what.startswith("scaled"):
                la = 0.25 * math.log((1 - a) / a)
                want = want / (math.asinh(s * la) / s if s > 0 else math.sinh(s * la) / s if s < 0 else la)
                close([d.ppf(1 - a), d.ppf(a), d.ppf(0.5)], [1.0, -1.0, 0.0], tag + ": scale", 1e-9, 1e-9)
            close(x, want, tag + ": quantiles", 1e-9, 1e-9)
            close(d.cdf(x), P, tag + ": distribution function", 1e-9, 1e-9)
            h = 1e-5 * np.maximum(1, np.abs(x))
            close(d.pdf(x), (d.cdf(x + h) - d.cdf(x - h)) / (2 * h), tag + ": density", 1e-4, 1e-7)
    rec.trace()
    rec.state("base", s, a)
    rec.outcome("base")


def spaces(tier):
    return [
        Space("single", lambda: cases(tier), check, "5 distributions x 4 outer probabilities x bounds x versions and shapes x all increasing triplets over an alphabet plus exactly and nearly symmetric ones; quantile function on 15 probabilities"),
        Space("vector", lambda: vector_cases(tier), check_vector, "groups of one to five triplets evaluated together, outer and inner, against each alone"),
        Space("refused", lambda: refused_cases(tier), check_refused, "all orders of three quantiles and an unknown version"),
        Space("base", lambda: base_cases(tier), check_base, "10 shapes of the base distribution x 4 outer probabilities"),
    ]
