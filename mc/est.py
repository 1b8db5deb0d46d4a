"""Estimator factory and table helpers shared by the property modules.

Only the public API of the package is used."""
import itertools

import numpy as np
import pandas as pd

import cyclic_boosting as cb
from cyclic_boosting import flags
from cyclic_boosting.price import CBExponential

INF = 10**9

U, O, C = flags.IS_UNORDERED, flags.IS_ORDERED, flags.IS_CONTINUOUS
HM, MNL, MAGIC = flags.HAS_MISSING, flags.MISSING_NOT_LEARNED, flags.HAS_MAGIC_INT_MISSING

REGS = ["poisson", "nbinom", "location", "locpoisson", "gbs", "classifier"]
GENERIC = ["mquant", "aquant", "mgen", "agen", "gclf"]
SPECIAL = ["nbinomc", "expo"]
ALL = REGS + GENERIC + SPECIAL

MULT = {"poisson", "nbinom", "mquant", "mgen", "expo"}
ADD = {"location", "locpoisson", "gbs", "aquant", "agen"}
LOGIT = {"classifier", "gclf", "nbinomc"}


def costs_sq(prediction, y, weights):
    return np.nansum((prediction - y) ** 2 * weights) / max(np.nansum(weights), 1e-300)


def costs_abs(prediction, y, weights):
    return np.nansum(np.abs(prediction - y) * weights) / max(np.nansum(weights), 1e-300)


def costs_logloss(prediction, y, weights):
    p = np.clip(prediction, 1e-9, 1 - 1e-9)
    return -np.nansum((y * np.log(p) + (1 - y) * np.log(1 - p)) * weights) / max(np.nansum(weights), 1e-300)


def link_of(kind):
    if kind in MULT:
        return lambda m: np.log(np.asarray(m, dtype=float))
    if kind in ADD:
        return lambda m: np.asarray(m, dtype=float).copy()
    return lambda p: np.log(np.asarray(p, dtype=float) / (1.0 - np.asarray(p, dtype=float)))


def unlink_of(kind):
    if kind in MULT:
        return lambda l: np.exp(np.asarray(l, dtype=float))
    if kind in ADD:
        return lambda l: np.asarray(l, dtype=float).copy()
    return lambda l: 1.0 / (1.0 + np.exp(-np.asarray(l, dtype=float)))


def groups_of(gs):
    return [tuple(g) if isinstance(g, (list, tuple)) else g for g in gs]


def make(kind, groups=None, props=None, external=None, **kw):
    """Build an estimator.  `groups` is a list of names or lists of names."""
    kw = dict(kw)
    groups = groups_of(groups) if groups is not None else None
    common = dict(feature_properties=props)
    common.update(kw)
    q = common.pop("quantile", 0.5)
    costs = common.pop("costs", None)
    if kind == "expo":
        common.pop("aggregate", None)
        if "hierarchical_feature_groups" in common:
            common.pop("hierarchical_feature_groups")
        return CBExponential(
            external_colname=common.pop("external_colname", "price"),
            standard_feature_groups=groups,
            external_feature_groups=groups_of(external) if external is not None else groups_of([groups[0]]),
            **common,
        )
    if kind == "nbinomc":
        common.pop("aggregate", None)
        common.pop("hierarchical_feature_groups", None)
        return cb.CBNBinomC(mean_prediction_column=common.pop("mean_prediction_column", "mu"), feature_groups=groups, **common)
    cls = {
        "poisson": cb.CBPoissonRegressor,
        "nbinom": cb.CBNBinomRegressor,
        "location": cb.CBLocationRegressor,
        "locpoisson": cb.CBLocPoissonRegressor,
        "gbs": cb.CBGBSRegressor,
        "classifier": cb.CBClassifier,
        "mquant": cb.CBMultiplicativeQuantileRegressor,
        "aquant": cb.CBAdditiveQuantileRegressor,
        "mgen": cb.CBMultiplicativeGenericCRegressor,
        "agen": cb.CBAdditiveGenericCRegressor,
        "gclf": cb.CBGenericClassifier,
    }[kind]
    if kind == "nbinom":
        common.setdefault("a", 1.2)
        common.setdefault("c", 0.1)
    if kind in ("mquant", "aquant"):
        common["quantile"] = q
    if kind in ("mgen", "agen"):
        common["costs"] = costs or costs_sq
    if kind == "gclf":
        common["costs"] = costs or costs_logloss
    if kind == "gbs":
        common.pop("prior_prediction_column", None)
    return cls(feature_groups=groups, **common)


def targets(kind, n=3):
    """Small target alphabet of an estimator."""
    if kind in ("classifier", "gclf"):
        return [0.0, 1.0]
    if kind in ("location", "gbs", "aquant", "agen"):
        return [-2.0, 0.5, 3.0][:n]
    return [0.0, 1.0, 5.0][:n]


def frame(cols, kind=None):
    """DataFrame from {name: list}; adds the columns special estimators need."""
    d = {k: np.asarray(v, dtype=float) for k, v in cols.items()}
    n = len(next(iter(d.values())))
    if kind == "expo" and "price" not in d:
        d["price"] = np.array([1.0, 0.8, 1.2, 0.5, 1.1, 0.9, 1.4, 0.7] * (n // 8 + 1))[:n]
    if kind == "nbinomc" and "mu" not in d:
        d["mu"] = np.array([1.0, 2.5, 0.7, 4.0, 1.5, 3.0] * (n // 6 + 1))[:n]
    return pd.DataFrame(d)


def raw_predict(kind, est, X):
    """Prediction on the model's continuous scale (probability for classifiers)."""
    if kind == "classifier":
        return est.predict_proba(X)[:, 1]
    return est.predict(X)


def multisets(universe, n):
    return itertools.combinations_with_replacement(universe, n)


def warm_basic():
    """Compile the numba helpers once before forking."""
    X = pd.DataFrame({"a": [0.0, 1, 0, 1, -1], "b": [0.0, 0, 1, 1, 0]})
    y = np.array([1.0, 2, 3, 4, 1])
    for kind in ("poisson", "location"):
        e = make(kind, ["a", ["a", "b"]], {"a": C, "b": U}, maximal_iterations=2).fit(X, y)
        e.predict(X)
    from cyclic_boosting.binning import BinNumberTransformer, ECdfTransformer

    BinNumberTransformer(n_bins=3).fit_transform(X)
    BinNumberTransformer(feature_properties={"a": U, "b": O}).fit_transform(X)
    t = ECdfTransformer(n_bins=3).fit(X)
    t.transform(X.copy())
    ECdfTransformer(feature_properties={"a": U, "b": O}).fit(X).transform(X.copy())
