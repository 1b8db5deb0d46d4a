"""C23: one-dimensional smoothers honour their contract."""
import itertools
import math
import warnings

import numpy as np

from cyclic_boosting.smoothing import extrapolate, onedim
from mc.core import close, ensure, is_close
from mc.run import Space
from mc.tables import thin

NAN, INF = float("nan"), float("inf")
ASSUMPTIONS = [
    "Uncertainties are positive unless the smoother documents a replacement; bins are complete (0..n-1) for the smoothers indexing by row and for the seasonal ones.",
    "Fits of a line need two bins.",
]
VALUES = [-1.0, 0.0, 2.5]
SIGMAS = [0.1, 1.0]
QUERY = [-2.0, -0.3, 0.0, 0.2, 0.49, 1.0, 1.3, 2.0, 2.7, 3.0, 4.0, 4.4, 5.6, 9.0]


def col(x):
    return np.array(x, dtype=float).reshape(-1, 1)


def table(case):
    n = len(case["y"])
    x = case.get("x", list(range(n)))
    return np.array(np.c_[x, case["w"], case["s"]], dtype=float), np.array(case["y"], dtype=float)


def wls(x, y, w, deg):
    """Weighted least squares polynomial; returns a function (positions are shifted for accuracy)."""
    x0 = float(np.mean(x))
    V = np.vander(np.asarray(x) - x0, deg + 1)
    r = np.sqrt(np.asarray(w))
    c = np.linalg.lstsq(V * r[:, None], np.asarray(y) * r, rcond=1e-13)[0]
    return lambda q: np.polyval(c, np.asarray(q) - x0)


def lookup(values, q):
    return [values[int(np.rint(v))] if 0 <= v and np.rint(v) < len(values) else NAN for v in q]


# --- references -------------------------------------------------------------


def ref_binvalues(X, y, q, par):
    return lookup(list(y), q)


def ref_prior(X, y, q, par):
    prior, thr = par
    prior = np.broadcast_to(np.asarray(prior, dtype=float), y.shape)
    out = []
    for v, s, p in zip(y, X[:, 2], prior):
        sig = (v - p) / s
        out.append(p if abs(sig) <= thr else p + math.copysign(math.sqrt(sig * sig - thr * thr), sig) * s)
    return lookup(out, q)


def shrink(x, s, i, members, mean=None):
    w = {j: 1.0 / s[j] ** 2 for j in members}
    tot = sum(w.values())
    m = sum(w[j] * x[j] for j in members) / tot if mean is None else mean
    spread = sum(w[j] * (x[j] - m) ** 2 for j in members) / tot
    if spread <= 1e-30:
        return m
    return (w[i] * x[i] + m / spread) / (w[i] + 1.0 / spread)


def ref_mean(X, y, q, par):
    n = len(y)
    if par is None and (n == 1 or np.allclose(y, y[0])):
        return lookup(list(y), q)
    if par is not None and np.allclose(y, par):
        return lookup(list(y), q)
    return lookup([shrink(y, X[:, 2], i, range(n), par) for i in range(n)], q)


def ref_neighbors(X, y, q, par):
    n = len(y)
    if n < 3:
        return ref_mean(X, y, q, None)
    return lookup([shrink(y, X[:, 2], i, range(max(i - 1, 0), min(i + 2, n))) for i in range(n)], q)


def ref_line(X, y, q, par):
    return wls(X[:, 0], y, 1.0 / (X[:, 2] ** 2 + par), 1)(q)


def season_matrix(x, n, order):
    t = 2 * np.pi * np.asarray(x) / n
    return np.array([np.ones(len(t))] + [f(k * t) for k in range(1, order + 1) for f in (np.sin, np.cos)]).T


def ref_season(X, y, q, par):
    order, tozero, fallback = par
    n = len(y)
    if n < 2 * order + 1:
        return np.full(len(q), fallback)
    r = 1.0 / X[:, 2]
    c = np.linalg.lstsq(season_matrix(X[:, 0], n, order) * r[:, None], y * r, rcond=None)[0]
    if tozero:
        c[0] = 0.0
    return season_matrix(q, n, order) @ c


def pava(y, w):
    blocks = []
    for v, u in zip(y, w):
        blocks.append([v, u, 1])
        while len(blocks) > 1 and blocks[-2][0] > blocks[-1][0]:
            b = blocks.pop()
            a = blocks.pop()
            blocks.append([(a[0] * a[1] + b[0] * b[1]) / (a[1] + b[1]), a[1] + b[1], a[2] + b[2]])
    return [v for v, _, k in blocks for _ in range(k)]


def ref_isotonic(X, y, q, par):
    order = np.argsort(X[:, 0], kind="stable")
    x, yy = X[order, 0], y[order]
    w = 1.0 / np.where(X[order, 2] > 0, X[order, 2], 1e12) ** 2
    up = np.array(pava(yy, w))
    down = -np.array(pava(-yy, w))
    fits = {"inc": np.interp(q, x, up), "dec": np.interp(q, x, down)}
    if par == "auto":
        import scipy.stats

        if len(y) < 2 or np.ptp(yy) == 0:
            return [fits["inc"], fits["dec"]]
        rho = scipy.stats.spearmanr(x, yy)[0]
        return [fits["inc"], fits["dec"]] if abs(rho) < 1e-9 else fits["inc"] if rho > 0 else fits["dec"]
    return fits["inc"] if par else fits["dec"]


def ref_ortho(X, y, q, par):
    """Weighted polynomial of the lowest sufficient degree, constant beyond the fitted range."""
    n = len(y)
    sig = np.where(X[:, 2] > 0, X[:, 2], 1e12)
    w = 1.0 / sig**2
    qq = np.clip(q, X[:, 0].min(), X[:, 0].max())
    top = min(21, n)
    chi = [float(np.sum(w * (wls(X[:, 0], y, w, d)(X[:, 0]) - y) ** 2)) for d in range(top)]
    near = False
    used = top
    if top >= 3:
        gain = [0.0] + [max(chi[d - 1] - chi[d], 0.0) for d in range(1, top)]
        poor = 0
        for k in range(2, top):
            used = k + 1
            near = near or abs(chi[k] - (n - k - 1)) < 1e-6
            if chi[k] < n - (k + 1):
                break
            near = near or abs(gain[k] - 3.84) < 1e-6 or abs(gain[k] + gain[k - 1] - 6.0) < 1e-6
            poor += gain[k] < 3.84
            poor += gain[k] + gain[k - 1] < 6.0
            if poor >= 4:
                break
    if used == n:
        used = min(max(int(n * 0.2), 2), 21) if n > 2 else 1
    if near:
        return [wls(X[:, 0], y, w, d)(qq) for d in range(top)]
    return wls(X[:, 0], y, w, used - 1)(qq)


def ref_poly(X, y, q, par):
    return wls(X[:, 0], y, np.ones(len(y)), par)(q)


def ref_slope(X, y, q, par):
    f = wls(X[:, 0], y, np.ones(len(y)), 1)
    if par and f(1.0) < f(0.0) - 1e-12:
        return wls(X[:, 0], y, np.ones(len(y)), 0)(q)
    if par and abs(f(1.0) - f(0.0)) <= 1e-12:
        return [f(q), wls(X[:, 0], y, np.ones(len(y)), 0)(q)]
    return f(q)


class Smoother:
    def __init__(self, make, ref, par=None, any_x=False, min_n=1, equal_sigma=False, order_free=False, tol=1e-8):
        self.make, self.ref, self.par, self.any_x, self.min_n = make, ref, par, any_x, min_n
        self.equal_sigma, self.order_free, self.tol = equal_sigma, order_free, tol


def two_waves(x, c, s1, c1, s2, c2):
    return c + s1 * np.sin(x) + c1 * np.cos(x) + s2 * np.sin(2 * x) + c2 * np.cos(2 * x)



SMOOTHERS = {
    "values": Smoother(onedim.BinValuesSmoother, ref_binvalues),
    "prior0.5": Smoother(lambda: onedim.RegularizeToPriorExpectationSmoother(0.5), ref_prior, (0.5, 2.5)),
    "prior0.5/1": Smoother(lambda: onedim.RegularizeToPriorExpectationSmoother(0.5, threshold=1.0), ref_prior, (0.5, 1.0)),
    "one": Smoother(onedim.RegularizeToOneSmoother, ref_prior, (1.0, 2.5)),
    "mean": Smoother(onedim.WeightedMeanSmoother, ref_mean),
    "mean0": Smoother(lambda: onedim.WeightedMeanSmoother(prior_prediction=0), ref_mean, 0.0),
    "mean1": Smoother(lambda: onedim.WeightedMeanSmoother(prior_prediction=1.0), ref_mean, 1.0),
    "neighbors": Smoother(onedim.WeightedMeanSmootherNeighbors, ref_neighbors),
    "ortho": Smoother(onedim.OrthogonalPolynomialSmoother, ref_ortho, any_x=True, order_free=True, tol=1e-5),
    "season1": Smoother(onedim.SeasonalSmoother, ref_season, (1, True, 0.0), order_free=True, tol=1e-5),
    "season1c": Smoother(lambda: onedim.SeasonalSmoother(offset_tozero=False, fallback_value=7.0), ref_season, (1, False, 7.0), order_free=True, tol=1e-5),
    "season2": Smoother(lambda: onedim.SeasonalSmoother(order=2), ref_season, (2, True, 0.0), order_free=True, tol=1e-5),
    "season-own": Smoother(lambda: onedim.SeasonalSmoother(order=3, custom_fit_function=two_waves), ref_season, (2, True, 0.0), order_free=True, tol=1e-5),
    "season3": Smoother(lambda: onedim.SeasonalSmoother(order=3), ref_season, (3, True, 0.0), order_free=True, tol=1e-5),
    "poly0": Smoother(lambda: onedim.PolynomialSmoother(0), ref_poly, 0, any_x=True, equal_sigma=True, order_free=True),
    "poly1": Smoother(lambda: onedim.PolynomialSmoother(1), ref_poly, 1, any_x=True, min_n=2, equal_sigma=True, order_free=True),
    "poly2": Smoother(lambda: onedim.PolynomialSmoother(2), ref_poly, 2, any_x=True, min_n=3, equal_sigma=True, order_free=True),
    "linear": Smoother(onedim.LinearSmoother, ref_slope, False, any_x=True, min_n=2, equal_sigma=True, order_free=True),
    "linear+": Smoother(lambda: onedim.LinearSmoother(fallback_when_negative_slope=True), ref_slope, True, any_x=True, min_n=2, equal_sigma=True, order_free=True),
    "isotonic": Smoother(onedim.IsotonicRegressor, ref_isotonic, "auto", any_x=True, order_free=True),
    "isotonic+": Smoother(lambda: onedim.IsotonicRegressor(increasing=True), ref_isotonic, True, any_x=True, order_free=True),
    "isotonic-": Smoother(lambda: onedim.IsotonicRegressor(increasing=False), ref_isotonic, False, any_x=True, order_free=True),
    "extrapolator": Smoother(extrapolate.LinearExtrapolator, ref_line, 1e-4, any_x=True, min_n=2, order_free=True, tol=1e-7),
    "extrapolator/1": Smoother(lambda: extrapolate.LinearExtrapolator(epsilon=1.0), ref_line, 1.0, any_x=True, min_n=2, order_free=True, tol=1e-7),
}
# what lines/constants are reproduced by
NULL = {"const": ["values", "mean", "neighbors", "ortho", "season1c", "poly0", "poly1", "poly2", "linear", "linear+", "isotonic", "isotonic+", "isotonic-", "extrapolator"],
        "line": ["values", "ortho", "poly1", "poly2", "linear", "extrapolator", "isotonic+"]}


def tables(n, deep):
    """All values x uncertainties for n bins (uncertainty patterns thinned for larger n)."""
    sig = list(itertools.product(SIGMAS, repeat=n))
    if n > 3:
        sig = sig[:: max(len(sig) // (4 if not deep else 16), 1)] + [tuple([0.3] * n)]
    else:
        sig = sig + [tuple([0.3] * n)]
    for y in itertools.product(VALUES, repeat=n):
        for s in sig:
            yield list(y), list(s)


def cases(tier):
    q = tier == "quick"
    out = []
    i = 0
    for name, sm in SMOOTHERS.items():
        for n in range(sm.min_n, 8):
            ts = list(tables(n, not q))
            per = 150 if q else 2500
            for y, s in thin(ts, max(len(ts) // per, 1), 3 * i):
                i += 1
                if sm.equal_sigma:
                    s = [s[0]] * n
                c = {"sm": name, "y": y, "s": s, "w": [[1.0, 3.0, 0.5][(i + j) % 3] for j in range(n)]}
                if sm.any_x and i % 3 == 1:
                    c["x"] = [j + (1.0 if i % 2 else 4.0) for j in range(n)] if i % 9 else [1.5 * j for j in range(n)]
                if sm.any_x and i % 3 == 2:
                    c["x"] = [j + (j > n // 2) for j in range(n)]
                out.append(c)
    return out


def run(sm, X, y, q):
    m = sm.make()
    m.fit(X.copy(), y.copy())
    return m, np.asarray(m.predict(col(q)), dtype=float)


def check(case, rec):
    sm = SMOOTHERS[case["sm"]]
    X, y = table(case)
    n = len(y)
    tag = "%s fitted on positions %s values %s uncertainties %s" % (case["sm"], X[:, 0], y, X[:, 2])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        q = np.array([v + X[0, 0] for v in QUERY] if "x" in case else QUERY)
        m, got = run(sm, X, y, q)
        rec.op()
        rec.trace()
        ref = sm.ref(X, y, q, sm.par)
        scale = 1.0 + np.abs(y).max()
        alternatives = ref if isinstance(ref, list) and len(ref) and isinstance(ref[0], np.ndarray) else None
        if alternatives:
            ensure(any(is_close(got, r, sm.tol * 10, sm.tol * scale * 10) for r in alternatives), lambda: "%s: predicts %s, none of the admissible fits %s" % (tag, got, alternatives))
        else:
            big = 1.0 + np.nanmax(np.abs(np.asarray(ref, dtype=float)))
            close(got, ref, tag + ": prediction at %s" % q, sm.tol, sm.tol * max(scale, big))
        rec.state(case["sm"], X[:, 0], y, X[:, 2])
        # one position at a time and missing positions
        for j in (0, 5, len(q) - 1):
            close(m.predict(col([q[j]])), [got[j]], tag + ": single position %g" % q[j], 1e-12, 1e-12)
        # a refit forgets what was fitted before
        m.fit(np.c_[np.arange(3.0), [1.0, 2, 1], [0.5, 0.5, 0.5]], np.array([5.0, -3.0, 1.0]))
        m.predict(col(q))
        m.fit(X.copy(), y.copy())
        close(m.predict(col(q)), got, tag + ": after refitting", 1e-12, 1e-12)
        rec.op(2)
        if sm.order_free and n > 1:
            for perm in ([n - 1] + list(range(n - 1)), list(range(n))[::-1]):
                _, other = run(sm, X[perm], y[perm], q)
                rec.op()
                close(other, got, "%s: rows in order %s" % (tag, perm), sm.tol * 10, sm.tol * 10 * max(scale, 1.0 + np.nanmax(np.abs(got)) if np.isfinite(got).any() else 1.0))
        # null space
        if case["sm"] in NULL["const"] and not (case["sm"] == "season1c" and n < 3):
            _, flat = run(sm, X, np.full(n, 1.75), X[:, 0])
            close(flat, np.full(n, 1.75), tag + ": constant values", 1e-6, 1e-6)
        if case["sm"] in NULL["line"] and n >= 3:
            line = 0.5 * X[:, 0] - 1.0
            _, back = run(sm, X, line, X[:, 0])
            close(back, line, tag + ": values on a line", 1e-6, 1e-5)
        # input arrays are left alone
        Xc, yc, qc = X.copy(), y.copy(), col(q)
        m = sm.make()
        m.fit(Xc, yc)
        m.predict(qc)
        ensure((Xc == X).all() and (yc == y).all() and (qc == col(q)).all(), lambda: tag + ": modifies its input")
    rec.outcome(case["sm"])


# --- splines, lasso ---------------------------------------------------------


def other_cases(tier):
    out = []
    vals = list(itertools.product(VALUES, repeat=5))
    for i, y in enumerate(thin(vals, 1 if tier != "quick" else 2, 0)):
        for kind in ("spline0", "spline", "lsq1", "lsq2", "lasso", "weights", "sigmas"):
            out.append({"kind": kind, "y": list(y), "i": i})
    return out


def check_other(case, rec):
    y = np.array(case["y"])
    n = len(y)
    w = np.array([[1.0, 2.0, 0.5, 3.0, 1.0], [1.0] * 5][case["i"] % 2])
    X = np.c_[np.arange(n * 1.0), w, np.full(n, 0.2)]
    kind = case["kind"]
    tag = "%s with values %s weights %s" % (kind, y, w)
    q = np.linspace(0, n - 1, 9)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec.op()
        rec.trace()
        if kind == "spline0":
            for k in (1, 2, 3):
                m = onedim.UnivariateSplineSmoother(k=k, s=0).fit(X, y)
                close(m.predict(col(range(n))), y, "%s degree %d: interpolation" % (tag, k), 1e-8, 1e-8)
                if k == 1:
                    close(m.predict(col(q)), np.interp(q, range(n), y), tag + ": piecewise linear", 1e-8, 1e-8)
        elif kind == "spline":
            for s in (None, 0.5, 3.0):
                m = onedim.UnivariateSplineSmoother(k=3, s=s).fit(X, y)
                res = np.sum((w * (m.predict(col(range(n))) - y)) ** 2)
                ensure(res <= (n if s is None else s) * 1.01 + 1e-9, lambda: "%s: residual %g with smoothing %s" % (tag, res, s))
        elif kind in ("lsq1", "lsq2"):
            k = int(kind[-1])
            m = onedim.LSQUnivariateSpline(interior_knots=[2.0], degree=k).fit(X, y)
            # least squares on the truncated power basis, weights multiply the residuals
            def basis(x):
                x = np.asarray(x, dtype=float)
                return np.array([x**j for j in range(k + 1)] + [np.where(x > 2.0, x - 2.0, 0.0) ** k]).T

            c = np.linalg.lstsq(basis(range(n)) * w[:, None], y * w, rcond=None)[0]
            close(m.predict(col(q)), basis(q) @ c, tag, 1e-7, 1e-7)
            for deg, rows in ((6, X), (n, X), (k, X[:k])):
                try:
                    onedim.LSQUnivariateSpline(interior_knots=[2.0], degree=deg).fit(rows, y[: len(rows)])
                except ValueError:
                    pass
                else:
                    ensure(False, lambda: "%s: degree %d accepted for %d bins" % (tag, deg, len(rows)))
        elif kind == "lasso":
            nn = 12
            yy = np.array([y[i % n] for i in range(nn)])
            ww = np.array([0.0 if i in (3, 7) else 1.0 + i % 2 for i in range(nn)])
            XX = np.c_[np.arange(nn * 1.0), ww, np.ones(nn)]
            m = onedim.SeasonalLassoSmoother(min_days=10)
            m.fit(XX.copy(), yy.copy())
            qq = np.arange(0, nn - 1, 0.5)
            p = m.predict(col(qq))
            close(m.predict(col(qq + (nn - 1))), p, tag + ": period", 1e-9, 1e-9)
            # a first-order wave: opposite phases cancel
            close(m.predict(col(qq + (nn - 1) / 2.0)), -p, tag + ": half a period", 1e-9, 1e-9)
            y2 = yy.copy()
            y2[[3, 7]] = 55.0
            m2 = onedim.SeasonalLassoSmoother(min_days=10)
            m2.fit(XX.copy(), y2)
            close(m2.predict(col(qq)), p, tag + ": values of empty bins matter", 1e-12, 1e-12)
            m3 = onedim.SeasonalLassoSmoother(min_days=11)
            m3.fit(XX.copy(), yy.copy())
            ensure((m3.predict(col(qq)) == 0).all(), lambda: tag + ": fallback")
            m2.fit(XX[:5], yy[:5])
            ensure((m2.predict(col(qq)) == 0).all(), lambda: tag + ": fallback after refit")
            wave = np.sin(2 * np.pi * (np.arange(nn) + case["i"] % 5) / (nn - 1)) * (1 + case["i"] % 3) * (-1) ** case["i"]
            m.fit(XX.copy(), wave + np.array([0.02, -0.01, 0.005] * 4))
            close(m.predict(col(range(nn))), wave, tag + ": a wave with little noise", 5e-2, 5e-2)
        elif kind == "weights":
            # precise bins dominate fits of a line or polynomial
            s = np.array([1e-3, 1e-3, 1.0, 1.0, 1.0])
            XX = np.c_[np.arange(n * 1.0), w, s]
            for mk in (onedim.LinearSmoother, lambda: onedim.PolynomialSmoother(1), lambda: extrapolate.LinearExtrapolator(epsilon=1e-12)):
                m = mk()
                m.fit(XX, y)
                close(m.predict(col([0.0, 1.0])), y[:2], tag + ": bins with small uncertainty", 1e-2, 1e-2)
        else:
            # bins without uncertainty information are ignored by the robust smoothers
            s = np.array([0.1, 0.1, 0.0, 0.1, 0.1])
            XX = np.c_[np.arange(n * 1.0), w, s]
            y2 = y.copy()
            y2[2] += 3.0
            for mk in (onedim.OrthogonalPolynomialSmoother, lambda: onedim.IsotonicRegressor(increasing=True)):
                a, b = mk().fit(XX, y), mk().fit(XX, y2)
                close(a.predict(col([0.0, 1.0, 3.0, 4.0])), b.predict(col([0.0, 1.0, 3.0, 4.0])), tag + ": value of a bin of zero uncertainty matters", 1e-6, 1e-6)
    rec.state(kind, y, w)
    rec.outcome(kind)


def warm():
    run(SMOOTHERS["ortho"], np.c_[np.arange(4.0), np.ones(4), np.ones(4)], np.arange(4.0), np.arange(4.0))


def spaces(tier):
    return [
        Space("references", lambda: cases(tier), check,
              "23 smoother configurations x 1-7 bins x all values from 3 x all uncertainties from 2 (thinned above 3 bins) x shifted and gapped positions; 14 query positions, refits and row orders",
              warm=warm),
        Space("splines", lambda: other_cases(tier), check_other, "spline, lasso and weighting configurations x all 5-bin value tables over 3 values (quick: every other)", warm=warm),
    ]
