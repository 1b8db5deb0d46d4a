"""C30: a ready-made pipeline equals binning followed by its estimator."""
import inspect
import itertools
import logging
import warnings

import numpy as np
import pandas as pd

import cyclic_boosting as cb
from cyclic_boosting import common_smoothers, flags, learning_rate, observers, pipelines
from cyclic_boosting.binning import BinNumberTransformer
from cyclic_boosting.price import CBExponential
from cyclic_boosting.utils import ConvergenceError
from mc import est
from mc.core import close, ensure, fail, raises
from mc.run import Space
from mc.tables import thin

NAN = float("nan")
ASSUMPTIONS = ["Without feature properties every column is binned, which is a known finding for weight, prior-prediction and price columns."]
U, C, HM = flags.IS_UNORDERED, flags.IS_CONTINUOUS, flags.HAS_MISSING

CLASSES = {
    "poisson": "CBPoissonRegressor",
    "nbinom": "CBNBinomRegressor",
    "classifier": "CBClassifier",
    "location": "CBLocationRegressor",
    "locpoisson": "CBLocPoissonRegressor",
    "gbs": "CBGBSRegressor",
    "expo": "CBExponential",
    "nbinomc": "CBNBinomC",
    "mquant": "CBMultiplicativeQuantileRegressor",
    "aquant": "CBAdditiveQuantileRegressor",
    "mgen": "CBMultiplicativeGenericCRegressor",
    "agen": "CBAdditiveGenericCRegressor",
    "gclf": "CBGenericClassifier",
}


def class_of(kind):
    return CBExponential if kind == "expo" else getattr(cb, CLASSES[kind])


def factory(kind):
    return getattr(pipelines, "pipeline_" + CLASSES[kind])


# settings a caller may want to change, by name; objects are made anew for every model
TOGGLES = {
    "weights": lambda: {"weight_column": "w"},
    "prior": lambda: {"prior_prediction_column": "prior"},
    "loss change": lambda: {"minimal_loss_change": 0.3},
    "factor change": lambda: {"minimal_factor_change": 0.3},
    "one cycle": lambda: {"maximal_iterations": 1},
    "more cycles": lambda: {"maximal_iterations": 13, "minimal_loss_change": 1e-9, "minimal_factor_change": 1e-9},
    "smoother choice": lambda: {"smoother_choice": common_smoothers.SmootherChoiceGroupBy()},
    "output column": lambda: {"output_column": "out"},
    "learn rate": lambda: {"learn_rate": learning_rate.half_linear_learn_rate},
    "few bins": lambda: {"number_of_bins": 3},
    "bins by feature": lambda: {"number_of_bins": {"b": 4}},
    "not aggregated": lambda: {"aggregate": False},
    "hierarchical": lambda: {"hierarchical_feature_groups": ["a"]},
    "observer": lambda: {"observers": [observers.PlottingObserver(iteration=-1)]},
    "prior a": lambda: {"a": 1.7},
    "prior c": lambda: {"c": 0.6},
    "exponent variance": lambda: {"var_prior_exponent": 0.9},
    "exponent prior": lambda: {"prior_exponent_colname": "pe"},
    "penalty": lambda: {"gamma": 0.4},
    "bayes": lambda: {"bayes": True},
    "steps": lambda: {"n_steps": 5},
    "regularisation": lambda: {"regalpha": 0.4},
    "quantile": lambda: {"quantile": 0.8},
    "in place": lambda: {"inplace": True},
    "default groups": lambda: {},
    "no properties": lambda: {},
    "array": lambda: {},
}
GENERIC = ("mquant", "aquant", "mgen", "agen", "gclf")


def accepts(kind, toggle):
    sig = set(inspect.signature(class_of(kind).__init__).parameters)
    if toggle in ("few bins", "bins by feature", "in place", "no properties"):
        return True
    if toggle == "array":
        return kind not in ("expo", "nbinomc")
    if toggle == "default groups":
        return kind not in ("expo",)
    return all(k in sig for k in TOGGLES[toggle]())


def base(kind):
    kw = {}
    if kind == "expo":
        kw.update(external_colname="price", standard_feature_groups=["a", ("a", "b")], external_feature_groups=["b"])
    else:
        kw.update(feature_groups=["a", "b", ("a", "b")])
    if kind == "nbinomc":
        kw.update(mean_prediction_column="mu")
    if kind in ("mquant", "aquant"):
        kw.update(quantile=0.5)
    if kind in ("mgen", "agen"):
        kw.update(costs=est.costs_sq)
    if kind == "gclf":
        kw.update(costs=est.costs_logloss)
    return kw


def data(kind):
    n = 12
    X = pd.DataFrame(
        {
            "a": [3.0, 1.0, 2.0, 3.0, 1.0, 2.0, 2.0, 1.0, 3.0, 1.0, 2.0, 3.0],
            "w": [1.0, 2.0, 0.5, 1.0, 3.0, 1.0, 0.25, 2.0, 1.0, 1.5, 4.0, 1.0],
            "b": [0.1, 0.7, 0.3, 2.5, 9.0, 1.1, 0.4, 5.0, 3.0, NAN, 1.7, 0.2],
            "prior": [1.5, 2.0, 0.7, 3.0, 1.0, 2.2, 1.9, 0.5, 4.0, 1.2, 2.4, 1.8],
            "price": [0.5, 1.0, 0.8, 0.9, 0.7, 1.0, 0.6, 0.5, 1.0, 0.85, 0.75, 0.65],
            "mu": [2.0, 3.0, 1.5, 2.5, 4.0, 2.0, 1.0, 3.5, 2.0, 3.0, 2.5, 1.5],
            "pe": [-0.5, -1.0, 0.5, -0.2, -1.5, 0.1, -0.7, -0.3, -1.0, 0.3, -0.8, -0.4],
        },
        index=[(5 * i) % 13 for i in range(n)],
    )
    y = np.array([2.0, 3.0, 1.0, 5.0, 2.0, 4.0, 1.0, 0.0, 6.0, 2.0, 3.0, 1.0])
    if kind in ("classifier", "gclf"):
        y = (y > 2).astype(float)
        X["prior"] = X["prior"] / 5
    if kind == "gbs":
        y = np.array([1.0, -1.0, 1.0, 1.0, -1.0, 1.0, 1.0, -1.0, 1.0, 1.0, -1.0, 1.0])
    if kind == "nbinomc":
        X["prior"] = X["prior"] / 5
    return X, y


def used_columns(kind, kw):
    cols = ["a", "b"]
    for k in ("weight_column", "prior_prediction_column", "external_colname", "mean_prediction_column", "prior_exponent_colname"):
        if kw.get(k) is not None:
            cols.append(kw[k])
    return cols


def cases(tier):
    out = []
    i = 0
    for kind in CLASSES:
        ok = [t for t in TOGGLES if accepts(kind, t)]
        sets = [()] + [(t,) for t in ok]
        pairs = list(itertools.combinations(ok, 2))
        triples = list(itertools.combinations(ok, 3))
        slow = 3 if kind in GENERIC else 1
        sets += thin(pairs, 5 * slow if tier == "quick" else 1, i)
        sets += thin(triples, 100 * slow if tier == "quick" else 3 * slow, i)
        for s in sets:
            if ("one cycle" in s and "more cycles" in s) or ("few bins" in s and "bins by feature" in s):
                continue
            if "more cycles" in s and ("loss change" in s or "factor change" in s):
                continue
            if "array" in s and any(t in s for t in ("bins by feature", "default groups", "in place", "output column", "observer")):
                continue
            if "no properties" in s and any(t in s for t in ("bins by feature",)):
                continue
            out.append({"kind": kind, "set": list(s)})
        i += 1
    return out


def settings(kind, names):
    kw = base(kind)
    if kind in GENERIC and names:
        kw["maximal_iterations"] = 2  # these fits are slow
    for t in names:
        kw.update(TOGGLES[t]())
    if "default groups" in names:
        kw["feature_groups"] = None
    kw["feature_properties"] = None if "no properties" in names else {"a": U, "b": C | HM}
    return kw


def renumber(kw, cols):
    """The same settings with column positions instead of names."""
    pos = {c: i for i, c in enumerate(cols)}
    grp = lambda g: pos[g] if isinstance(g, str) else tuple(pos[m] for m in g)
    out = dict(kw)
    for k in ("feature_groups", "hierarchical_feature_groups"):
        if out.get(k):
            out[k] = [grp(g) for g in out[k]]
    for k in ("weight_column", "prior_prediction_column"):
        if out.get(k) is not None:
            out[k] = pos[out[k]]
    if out["feature_properties"] is not None:
        out["feature_properties"] = {pos[c]: p for c, p in out["feature_properties"].items()}
    return out


# the defaults of these are the pipeline's own, the other defaults are the estimator's
STOPPING = ("minimal_loss_change", "minimal_factor_change", "maximal_iterations", "learn_rate")


def manual(kind, kw, X, y, Q, features):
    """Bin the feature columns, leave the others as they are, fit the estimator."""
    defaults = {k: p.default for k, p in inspect.signature(pipelines.pipeline_CB).parameters.items()}
    sig = {k: p.default for k, p in inspect.signature(class_of(kind).__init__).parameters.items() if k != "self"}
    args = {k: kw[k] if k in kw else defaults[k] for k in sig if k in kw or k in defaults and (k in STOPPING or sig[k] is inspect.Parameter.empty)}
    binner = BinNumberTransformer(n_bins=kw.get("number_of_bins", 100), feature_properties=kw["feature_properties"], inplace=False)

    def part(T):
        return pd.DataFrame(T)[features]

    def merge(T, b):
        T = T.copy()
        if isinstance(T, pd.DataFrame):
            for c in features:
                T[c] = b[c]
        else:
            T[:, features] = b
        return T

    Xb = merge(X, binner.fit_transform(part(X).copy()))
    Qb = merge(Q, binner.transform(part(Q).copy()))
    m = class_of(kind)(**args)
    m.fit(Xb, y)
    return m, Qb


def answers(kind, predict, proba, Q):
    if kind in ("classifier",):
        return np.concatenate([np.asarray(proba(Q.copy()), dtype=float).ravel(), np.asarray(predict(Q.copy()), dtype=float).ravel()])
    return np.asarray(predict(Q.copy()), dtype=float).ravel()


def check(case, rec):
    logging.disable(logging.CRITICAL)
    kind, names = case["kind"], case["set"]
    X, y = data(kind)
    kw = settings(kind, names)
    cols = used_columns(kind, kw)
    X = X[sorted(cols, key=list(X.columns).index)]
    Q = X.iloc[[0, 3, 7, 9, 11, 4, 1]].reset_index(drop=True).copy()
    Q.loc[0, "a"], Q.loc[1, "b"], Q.loc[2, "b"] = 9.0, 100.0, 0.15
    features = ["a", "b"]
    kw2 = settings(kind, names)
    if "array" in names:
        cl = list(X.columns)
        kw, kw2 = renumber(kw, cl), renumber(kw2, cl)
        X, Q = X.values, Q.values
        features = [cl.index(f) for f in features]
    tag = "pipeline of %s with %s" % (CLASSES[kind], names or "default settings")
    aux = len(cols) > 2
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            m, Qb = manual(kind, kw2, X.copy(), y.copy(), Q.copy(), features)
        except ConvergenceError as e:
            # then the pipeline has to refuse the same data
            err = raises(lambda: factory(kind)(**kw).fit(X.copy(), y.copy()))
            if not (aux and "no properties" in names):
                ensure(isinstance(err, ConvergenceError) and str(err) == str(e), lambda: "%s: estimator raises %r, pipeline %r" % (tag, e, err))
            rec.op(2)
            rec.trace()
            rec.state(kind, names, str(err))
            rec.outcome("diverging")
            return
        want = answers(kind, m.predict, getattr(m, "predict_proba", None), Qb)
        p = factory(kind)(**kw)
        Xc, Qc, yc = X.copy(), Q.copy(), y.copy()
        try:
            p.fit(Xc, yc)
            got = answers(kind, p.predict, getattr(p, "predict_proba", None), Qc)
        except Exception as e:
            if aux and "no properties" in names:
                fail("%s: %s: %s" % (tag, type(e).__name__, e), key="auxiliary-columns-binned")
            raise
        rec.op(2)
        rec.trace()
        rec.state(kind, names, got)
        if aux and "no properties" in names:
            if not np.allclose(got, want, rtol=1e-9, atol=1e-12, equal_nan=True):
                allc = list(X.columns) if isinstance(X, pd.DataFrame) else list(range(X.shape[1]))
                m3, Qb3 = manual(kind, settings(kind, names) if "array" not in names else renumber(settings(kind, names), cl), X.copy(), y.copy(), Q.copy(), allc)
                known = answers(kind, m3.predict, getattr(m3, "predict_proba", None), Qb3)
                same = np.allclose(got, known, rtol=1e-9, atol=1e-12, equal_nan=True)
                fail("%s: predictions %s instead of %s" % (tag, got, want), key="auxiliary-columns-binned" if same else None)
        close(got, want, tag + ": predictions", 1e-9, 1e-12)
        # settings are reported by the component they belong to
        params = p.named_steps["CB"].get_params(deep=False)
        for k, v in m.get_params(deep=False).items():
            if k not in ("smoother_choice", "observers"):
                ensure(k in params and params[k] == v, lambda: "%s: setting %s is %r instead of %r" % (tag, k, params.get(k), v))
        nb = kw.get("number_of_bins", 100)
        ensure(p.named_steps["binning"].n_bins == nb, lambda: "%s: number of bins is %r" % (tag, p.named_steps["binning"].n_bins))
        if "observer" in names:
            ensure(kw["observers"][0] is params["observers"][0], lambda: tag + ": observer is replaced")
            o = p.named_steps["CB"].observers[0]
            ensure(len(o.loss) > 0, lambda: tag + ": observer recorded nothing")
        if "output column" in names:
            t = p.transform(Q.copy())
            want_t = m.transform(Qb.copy())
            close(np.asarray(t["out"], dtype=float), np.asarray(want_t["out"], dtype=float), tag + ": output column", 1e-9, 1e-12)
        if "in place" not in names and isinstance(X, pd.DataFrame):
            pd.testing.assert_frame_equal(Xc, X)
            pd.testing.assert_frame_equal(Qc, Q)
        elif isinstance(X, pd.DataFrame):
            ensure(not Xc.equals(X), lambda: tag + ": table was not binned in place")
        # fitting again gives the same model
        p.fit(X.copy(), y.copy())
        close(answers(kind, p.predict, getattr(p, "predict_proba", None), Q.copy()), got, tag + ": fitted again", 1e-9, 1e-12)
    rec.outcome(kind)


def check_refused(case, rec):
    rec.op()
    if case["what"] == "no estimator":
        err = raises(lambda: pipelines.pipeline_CB(feature_groups=["a"]))
    elif case["what"] == "other class":
        err = raises(lambda: pipelines.pipeline_CB(dict, feature_groups=["a"]))
    else:
        err = raises(lambda: factory(case["what"])(no_such_setting=1, **base(case["what"])))
    ensure(err is not None, lambda: "%s is accepted" % case)
    rec.state("refused", case)
    rec.outcome("refused")


def spaces(tier):
    return [
        Space("settings", lambda: cases(tier), check, "13 pipelines x no, every single, pairs and triples of up to 21 changed settings, tables with weight, prior, price, mean and exponent columns", warm=est.warm_basic, warm_in_child=True),
        Space("refused", lambda: [{"what": w} for w in ["no estimator", "other class"] + list(CLASSES)], check_refused, "unknown settings and estimators"),
    ]
