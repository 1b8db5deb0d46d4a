"""C28: quantile matching returns distributions consistent with the given quantiles."""
import itertools
import math
import warnings

import numpy as np
import pandas as pd
from scipy.stats import gamma, mstats, nbinom, norm
from sklearn.base import BaseEstimator

from cyclic_boosting import quantile_matching as qm
from mc.core import close, ensure, fail, raises
from mc.run import Space
from mc.tables import thin

ASSUMPTIONS = [
    "The quantile models of a chain are equivariant under increasing transformations (order statistics) and targets lie below the upper bound; where a target lies exactly at the lower bound only the quantiles are compared.",
    "At least one training row lies below and one above the predicted median of the training rows.",
]
QS = [[0.2, 0.5, 0.8], [0.1, 0.5, 0.7], [0.1, 0.3, 0.5, 0.7, 0.9], [0.05, 0.15, 0.25, 0.35, 0.45, 0.55, 0.65, 0.75, 0.85, 0.95]]
P = np.array([0.02, 0.1, 0.25, 0.5, 0.6, 0.75, 0.9, 0.98])


def fit_cases(tier):
    out = []
    for k in range(len(QS)):
        for mu in (-1000.0, -5.0, -1.0, 0.0, 0.5, 3.0, 10.0, 100.0, 1000.0):
            for s in (0.01, 0.1, 0.5, 1.0, 2.0, 10.0, 100.0):
                out.append({"kind": "gaussian", "q": k, "par": [mu, s]})
        for a in (0.3, 0.5, 1.0, 2.0, 5.0, 20.0):
            for b in (0.01, 0.1, 0.5, 1.0, 2.0, 10.0):
                out.append({"kind": "gamma", "q": k, "par": [a, b]})
        for mu in (0.5, 1.0, 2.0, 3.0, 5.0, 10.0, 50.0, 200.0):
            for r in (1.05, 1.2, 1.5, 2.0, 4.0):
                out.append({"kind": "nbinom", "q": k, "par": [mu, r]})
        for f in ("line", "square", "normal", "steps"):
            out.append({"kind": "spline", "q": k, "par": [f]})
    return out


def check_fit(case, rec):
    q = np.array(QS[case["q"]])
    kind, par = case["kind"], case["par"]
    tag = "%s fit to quantiles %s of parameters %s" % (kind, list(q), par)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        rec.op()
        rec.trace()
        if kind == "spline":
            v = {"line": 2 * q - 3, "square": q * q, "normal": norm.ppf(q), "steps": np.round(3 * q)}[par[0]]
            if len(q) < 4:
                ensure(raises(lambda: qm.quantile_fit_spline(q, v)) is not None, lambda: tag + ": too few points are accepted")
                rec.outcome("spline needs four points")
                return
            f = qm.quantile_fit_spline(q, v)
            close(f(q), v, tag + ": at the given quantiles", 1e-9, 1e-9)
            inner = np.linspace(q[0], q[-1], 23)
            if par[0] in ("line", "square"):
                close(f(inner), 2 * inner - 3 if par[0] == "line" else inner**2, tag + ": between the given quantiles", 1e-9, 1e-9)
            close([f(-0.5), f(1.5)], [f(0.0), f(1.0)], tag + ": outside of the unit interval", 1e-9, 1e-9)
            rec.state(kind, par, case["q"])
            rec.outcome(kind)
            return
        if kind == "gaussian":
            d, fit = norm(par[0], par[1]), qm.quantile_fit_gaussian
        elif kind == "gamma":
            d, fit = gamma(par[0], scale=1 / par[1]), qm.quantile_fit_gamma
        else:
            mu, var = par[0], par[0] * par[1]
            d, fit = nbinom(mu * mu / (var - mu), mu / var), qm.quantile_fit_nbinom
        if kind == "nbinom":
            x = np.unique(d.ppf(q))
            if len(x) < 2:
                rec.outcome("a single value does not determine a distribution")
                return
            args = (d.cdf(x), x)
        else:
            args = (q, d.ppf(q))
        keep = [a.copy() for a in args]
        ppf, cdf, dist, default = fit(*args, mode="ppf"), fit(*args, mode="cdf"), fit(*args, mode="dist"), fit(*args)
        ensure(all((a == b).all() for a, b in zip(args, keep)), lambda: tag + ": modifies its input")
        rec.op(3)
        if kind == "nbinom":
            close(cdf(x), d.cdf(x), tag + ": distribution function", 0, 2e-3)
            if len(x) > 2:
                close(dist.mean(), d.mean(), tag + ": mean", 5e-3, 1e-3)
            k = np.arange(0, 3 * par[0] + 5)
            ensure((np.diff(cdf(k)) >= 0).all(), lambda: tag + ": distribution function decreases")
        else:
            close(ppf(P), d.ppf(P), tag + ": quantiles", 0, 1e-3 * d.std())
            y = d.ppf(P)
            close(cdf(y), P, tag + ": distribution function", 0, 1e-3)
            k = d.ppf(np.linspace(0.05, 0.95, 30))
            ensure((np.diff(ppf(np.linspace(0.01, 0.99, 60))) > 0).all() and (np.diff(cdf(k)) > 0).all(), lambda: tag + ": not increasing")
        close(default(P), ppf(P), tag + ": default mode", 1e-12, 1e-12)
        close(dist.ppf(P), ppf(P), tag + ": distribution object", 1e-12, 1e-12)
        close(dist.cdf(k), cdf(k), tag + ": distribution object", 1e-12, 1e-12)
        if kind == "nbinom":
            ensure((np.diff(ppf(P)) >= 0).all(), lambda: tag + ": quantile function decreases")
        ensure(raises(lambda: fit(*args, mode="pdf")) is not None, lambda: tag + ": unknown mode is accepted")
    rec.state(kind, par, case["q"])
    rec.outcome(kind)


# --- the shape of the base distribution -------------------------------------


def shape_cases(tier):
    out = []
    ys = {
        "normal": norm.ppf(np.linspace(0.01, 0.99, 60)),
        "wide": np.sinh(2 * norm.ppf(np.linspace(0.01, 0.99, 60))),
        "flat": np.linspace(-1, 1, 50),
        "skewed": np.exp(norm.ppf(np.linspace(0.01, 0.99, 60))),
    }
    for name, y in ys.items():
        for alpha in (0.1, 0.25, 0.4):
            for bound in ("S", "B", "U"):
                for l, u in ((0.0, 1.0), (-2.0, 6.0)):
                    out.append({"name": name, "alpha": alpha, "bound": bound, "l": l, "u": u})
    out.append({"name": "normal", "alpha": 0.25, "bound": "X", "l": 0.0, "u": 1.0})
    return out


def shape_data(name):
    p = np.linspace(0.01, 0.99, 60)
    return {"normal": norm.ppf(p), "wide": np.sinh(2 * norm.ppf(p)), "flat": np.linspace(-1, 1, 50), "skewed": np.exp(norm.ppf(p))}[name]


def check_shape(case, rec):
    l, u, bound, alpha = case["l"], case["u"], case["bound"], case["alpha"]
    raw = shape_data(case["name"])
    # move the observations inside the bounds
    z = (raw - raw.min()) / (raw.max() - raw.min())
    y = {"S": l + 0.1 + 5 * z, "B": l + (u - l) * (0.05 + 0.9 * z)}.get(bound, raw)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        rec.op()
        if bound == "X":
            ensure(raises(lambda: qm.fit_sinhlogistic_shape(alpha, l, u, bound, y)) is not None, lambda: "unknown bound accepted")
            rec.outcome("refused")
            return
        got = qm.fit_sinhlogistic_shape(alpha, l, u, bound, y.copy())
        rec.trace()
        p = np.arange(0.0005, 0.9995, 0.001)
        q = mstats.mquantiles(y, p)
        t = [np.quantile(y, alpha), np.quantile(y, 0.5), np.quantile(y, 1 - alpha)]

        def distance(shape):
            if bound == "S":
                d = qm.J_QPD_extended_S(alpha, *t, l=l, shape=shape)
            elif bound == "B":
                d = qm.J_QPD_extended_B(alpha, *t, l=l, u=u, shape=shape)
            else:
                d = qm.J_QPD_extended_U(alpha, *t, shape=shape)
            return np.abs(q - d.ppf(p)).mean()

        best = distance(got)
        ensure(math.isfinite(best), lambda: "%s: shape %s" % (case, got))
        for other in (0.0, 1.0, got + 0.05, got - 0.05):
            v = distance(other)
            ensure(not v < best * (1 - 1e-6) - 1e-9, lambda: "%s: shape %s has distance %s, but %s has %s" % (case, got, best, other, v))
    rec.state("shape", case)
    rec.outcome("shape")


# --- the regressor chain ----------------------------------------------------


class OrderStatistic(BaseEstimator):
    """Predicts an order statistic of the target for each value of the first column."""

    def __init__(self, q, add=0.0):
        self.q = q
        self.add = add

    def pick(self, v):
        v = np.sort(np.asarray(v, dtype=float))
        return v[min(int(self.q * len(v)), len(v) - 1)] + self.add

    def fit(self, X, y):
        x, y = np.asarray(X)[:, 0], np.asarray(y, dtype=float)
        assert len(x) == len(y) and len(x) > 0 and np.isfinite(y).all()
        self.table_ = {c: self.pick(y[x == c]) for c in set(x)}
        self.other_ = self.pick(y)
        return self

    def predict(self, X):
        return np.array([self.table_.get(c, self.other_) for c in np.asarray(X)[:, 0]])


Y = {"S": [0.3, 1.0, 2.5, 7.0, 40.0], "B": [0.1, 0.2, 0.5, 0.6, 0.95]}


def chain_cases(tier):
    out = []
    i = 0
    for bound in ("S", "B"):
        for l, u in ((0.0, 1.0), (-50.0, 100.0), (3.0, 3.5)):
            for alpha in (0.1, 0.25, 0.4):
                for form in ("frame", "array", "series"):
                    for ya in thin(list(itertools.product(range(5), repeat=4)), 40 if tier == "quick" else 3, i):
                        for yb in thin(list(itertools.combinations(range(5), 3)), 3 if tier == "quick" else 2, i):
                            out.append({"bound": bound, "l": l, "u": u, "alpha": alpha, "form": form, "y": [list(ya), list(yb)], "edge": i % 3 == 0})
                            i += 1
                    i += 1
    return out


def check_chain(case, rec):
    bound, l, u, alpha = case["bound"], case["l"], case["u"], case["alpha"]
    val = [l + v if bound == "S" else l + (u - l) * v for v in Y[bound]]
    edge = case["edge"] and any(0 in k for k in case["y"])
    if edge:
        val[0] = l
    rows = [(0.0, val[k]) for k in case["y"][0]] + [(1.0, val[k]) for k in case["y"][1]]
    rows = [rows[(i * 3) % len(rows)] for i in range(len(rows))] if len(rows) % 3 else rows
    x = np.array([r[0] for r in rows])
    y = np.array([r[1] for r in rows])
    tag = "chain %s" % case
    med, low, high = {}, {}, {}
    # the median model answers slightly above an order statistic so that no row lies exactly at a median
    mk = [OrderStatistic(0.5, 0.05), OrderStatistic(2 * alpha), OrderStatistic(2 * (1 - alpha) - 1)]
    for c in (0.0, 1.0):
        z = mk[0].pick([math.log(max(v - l, 1e-12) / (1 if bound == "S" else u - v)) for v in y[x == c]])
        med[c] = l + (math.exp(z) if bound == "S" else (u - l) / (1 + math.exp(-z)))
        below, above = y[(x == c) & (y < med[c])], y[(x == c) & (y > med[c])]
        if len(below) == 0 or len(above) == 0:
            rec.outcome("nothing beside the median")
            return
        low[c], high[c] = mk[1].pick(below), mk[2].pick(above)
    X = np.c_[x, x * 0 + 1]
    if case["form"] != "array":
        X = pd.DataFrame(X, columns=["a", "b"], index=[7 * i % 11 for i in range(len(x))])
    target = pd.Series(y, index=X.index) if case["form"] == "series" else y.copy()
    q = np.array([0.0, 1.0, 1.0, 0.0, 0.0])
    Q = np.c_[q, q * 0 + 1]
    if case["form"] != "array":
        Q = pd.DataFrame(Q, columns=["a", "b"])
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        kw = {} if (alpha, l, u) == (0.25, 0.0, 1.0) else {"alpha": alpha, "l": l, "u": u}
        chain = qm.QPD_RegressorChain(*mk, bound=bound, **kw)
        chain.fit(X, target)
        glow, gmed, ghigh, qpd = chain.predict(Q)
        rec.op(2)
        rec.trace()
        # the models see increasing functions of the target, so order statistics come back as they are
        close(gmed, [med[c] for c in q], tag + ": median", 1e-7, 1e-7)
        close(glow, [low[c] for c in q], tag + ": lower quantile", 1e-7, 1e-7)
        if edge:
            if bound == "B":
                close(ghigh, [high[c] for c in q], tag + ": upper quantile", 1e-7, 1e-7)
            rec.state("chain", case)
            rec.outcome("chain %s at the bound" % bound)
            return
        table = np.asarray(qpd.ppf(P))
        ensure(table.shape == (len(P), len(q)), lambda: "%s: quantile table of shape %s" % (tag, table.shape))
        for i in range(len(q)):
            one = (qm.J_QPD_S(alpha, glow[i], gmed[i], ghigh[i], l) if bound == "S" else qm.J_QPD_B(alpha, glow[i], gmed[i], ghigh[i], l, u))
            ensure(l < glow[i] < gmed[i] < ghigh[i] and (bound == "S" or ghigh[i] < u), lambda: "%s: quantiles %s, %s, %s" % (tag, glow[i], gmed[i], ghigh[i]))
            close(table[:, i], one.ppf(P), "%s: distribution of row %d" % (tag, i), 1e-9, 1e-9)
            close([float(one.ppf(alpha)), float(one.ppf(0.5)), float(one.ppf(1 - alpha))], [glow[i], gmed[i], ghigh[i]], "%s: triplet of row %d" % (tag, i), 1e-7, 1e-7)
        rec.state("chain", case)
        want = np.array([high[c] for c in q])
        if not np.allclose(ghigh, want, rtol=1e-7, atol=1e-7):
            known = np.array([med[c] + (high[c] - med[c]) / (med[c] - low[c]) for c in q])
            key = "semibound-upper-scale" if bound == "S" and np.allclose(ghigh, known, rtol=1e-6, atol=1e-7) else None
            fail("%s: upper quantile %s instead of %s" % (tag, ghigh, want), key=key)
    rec.outcome("chain " + bound)


def spaces(tier):
    return [
        Space("fits", lambda: fit_cases(tier), check_fit, "Gaussian, Gamma, negative binomial and spline fits over grids of parameters and four sets of quantiles, every mode"),
        Space("shapes", lambda: shape_cases(tier), check_shape, "four samples x three outer probabilities x three support types x two ranges"),
        Space("chains", lambda: chain_cases(tier), check_chain, "two categories with all patterns of four and three targets x both support types x three ranges x three outer probabilities x three input forms, targets inside and at the lower bound, order-statistic models"),
    ]
