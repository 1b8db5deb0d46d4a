"""C32: the caller's data is never modified and results do not alias the model."""
import itertools
import logging
import warnings

import numpy as np
import pandas as pd

from sklearn.linear_model import LinearRegression

from cyclic_boosting import binning, common_smoothers, interaction_selection, pipelines, quantile_matching
from cyclic_boosting.smoothing import meta_smoother, multidim, onedim
from mc import est
from mc.core import close, ensure, raises, snapshot
from mc.est import C, GENERIC, HM, O, REGS, U
from mc.run import Space

NAN = float("nan")
ASSUMPTIONS = []
KINDS = REGS + ["expo", "nbinomc"] + GENERIC


class quiet:
    def __enter__(self):
        logging.disable(logging.CRITICAL)
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")
        self.e = np.errstate(all="ignore")
        self.e.__enter__()

    def __exit__(self, *a):
        self.e.__exit__(*a)
        self.w.__exit__(*a)


COLS = ["a", "b", "w", "p", "price", "mu", "pe"]
TABLES = {
    "full": ([0, 1, 2, 0, 1, 2], [0, 1, 0, 1, 1, 0]),
    "missing": ([0, NAN, 2, -1, 1, 2], [0, 1, NAN, 1, -1, 0]),
    "negative": ([0, -1, 2, -1, 1, 2], [0, 1, -1, 1, -1, 0]),
}
QUERY = {
    "full": ([2, 1, 0, 3], [0, 1, 1, 0]),
    "missing": ([2, NAN, 0, 9], [NAN, 1, -1, 0]),
    "negative": ([2, -1, 0, 9], [-1, 1, -1, 0]),
}


def raw_table(kind, which, n, q=False):
    a, b = (QUERY if q else TABLES)[which]
    d = {"a": np.array(a, dtype=float), "b": np.array(b, dtype=float)}
    d["w"] = np.array([1.0, 2.0, 1.0, 3.0, 1.0, 2.0])[: len(a)]
    d["p"] = np.array([1.0, NAN if which == "missing" else 2.0, 3.0, 0.0, 2.0, 1.0])[: len(a)]
    if kind in ("classifier", "gclf", "nbinomc"):
        d["p"] = d["p"] / 4
    d["price"] = np.array([1.0, NAN if which == "missing" else 2.0, 1.0, 1.0, 2.0, 1.0])[: len(a)]
    d["mu"] = np.array([2.0, 1.0, 3.0, 2.0, 1.0, 2.0])[: len(a)]
    d["pe"] = np.array([-1.0, -1.0, 1.0, -2.0, -1.0, -1.0])[: len(a)]
    return pd.DataFrame(d)[COLS]


FRAMES = ["frame", "int frame", "int32 mixed", "odd index", "column view"]
ARRAYS = ["array", "fortran", "strided", "int array"]


def contain(X, how):
    """The table in a container; returns it and the object owning its memory."""
    ints = X.fillna(-1).round().astype(int)
    if how == "frame":
        return X, None
    if how == "int frame":
        return ints, None
    if how == "int32 mixed":
        return X.assign(a=ints["a"].astype("int32"), b=X["b"].astype("float32"), w=ints["w"].astype("int8")), None
    if how == "odd index":
        X = X.copy()
        X.index = pd.Index(["r%d" % ((3 * i) % 7) for i in range(len(X))], name="row")
        return X, None
    if how == "column view":
        big = pd.concat([X, X.add_suffix("_2")], axis=1)
        return big.loc[:, COLS], big
    if how == "array":
        return X.values.copy(), None
    if how == "fortran":
        return np.asfortranarray(X.values), None
    if how == "strided":
        big = np.repeat(X.values, 2, axis=0).repeat(2, axis=1)
        return big[::2, ::2], big
    if how == "int array":
        return ints.values.copy(), None
    if how == "locked":
        v = X.values.copy()
        v.setflags(write=False)
        return v, None
    raise ValueError(how)


def target(kind, how):
    y = [2.0, 3.0, 1.0, 5.0, 0.0, 4.0]
    if kind in ("classifier", "gclf"):
        y = [float(v > 2) for v in y]
    if how == "list":
        return [float(v) for v in y]
    if how == "series":
        return pd.Series(y, index=[10, 11, 12, 13, 14, 15], name="y")
    if how == "int":
        return np.array(y, dtype=int)
    if how == "strided":
        return np.array(y).repeat(2)[::2]
    y = np.array(y)
    if how == "locked":
        y.setflags(write=False)
    return y


class World:
    """The caller's objects with their snapshots."""

    def __init__(self):
        self.items = {}

    def add(self, name, obj):
        self.items[name] = (obj, snapshot(obj))
        return obj

    def drop(self, name):
        self.items.pop(name, None)

    def unchanged(self, what):
        for name, (obj, snap) in self.items.items():
            now = snapshot(obj)
            ensure(now == snap, lambda: "%s changes the caller's %s: %s" % (what, name, first_difference(snap, now)))


def first_difference(a, b):
    for x, y in zip(a, b):
        if x != y:
            return "%s -> %s" % (str(x)[:200], str(y)[:200])
    return "?"


def options(kind, cfg, frame):
    name = (lambda c: c) if frame else (lambda c: COLS.index(c))
    groups = [name("a"), (name("a"), name("b"))]
    kw = {"maximal_iterations": 2, "feature_properties": {name("a"): C | HM, name("b"): U | HM}}
    if cfg != "plain":
        kw["weight_column"] = name("w")
        if kind != "gbs":
            kw["prior_prediction_column"] = name("p")
        if frame:
            kw["output_column"] = "out"
    if cfg == "regression":
        kw["smoother_choice"] = common_smoothers.SmootherChoiceGroupBy(use_regression_type=True)
    if cfg == "hier" and kind not in ("expo", "nbinomc"):
        kw["hierarchical_feature_groups"] = [name("a")]
        kw["maximal_iterations"] = 5
    if kind == "expo":
        kw.update(external_colname=name("price"), standard_feature_groups=groups, external_feature_groups=[name("b")])
        if cfg != "plain":
            kw["prior_exponent_colname"] = name("pe")
    else:
        kw["feature_groups"] = groups
    if kind == "nbinomc":
        kw["mean_prediction_column"] = name("mu")
    if kind in ("mquant", "aquant"):
        kw["quantile"] = 0.5
    if kind in ("mgen", "agen"):
        kw["costs"] = est.costs_sq
    if kind == "gclf":
        kw["costs"] = est.costs_logloss
    return kw


def construct(kind, kw):
    from mc.props.c30 import class_of

    return class_of(kind)(**kw)


def est_cases(tier):
    out = []
    k = 0
    for kind in KINDS:
        for how in FRAMES + ([] if kind in ("expo", "nbinomc") else ARRAYS + ["locked"]):
            for which in TABLES:
                if which == "missing" and how in ("int frame", "int array"):
                    continue
                for cfg in ("plain", "all", "regression", "hier"):
                    for yhow in ("array", "series", "int", "list", "strided", "locked"):
                        k += 1
                        if kind in GENERIC and (cfg in ("regression", "hier") or k % (17 if tier == "quick" else 5)):
                            continue
                        if tier == "quick" and k % 5 not in (0, 3) and yhow not in ("locked",):
                            continue
                        if cfg in ("plain", "hier") and tier == "quick" and k % 2:
                            continue
                        out.append({"kind": kind, "x": how, "table": which, "cfg": cfg, "y": yhow})
    return out


def scoring_ops(kind, frame):
    ops = ["predict", "extended", "contributions", "missing column"]
    if kind == "classifier":
        ops.append("probabilities")
    if frame:
        ops.append("transform")
    return ops


def score(op, kind, m, Q, frame):
    if op == "predict":
        return m.predict(Q)
    if op == "probabilities":
        return m.predict_proba(Q)
    if op == "extended":
        cats = None
        if frame and kind != "expo":
            cats = {("a",): "one", ("a", "b"): "two"}
        return m.predict_extended(Q, cats).df
    if op == "contributions":
        return m.get_feature_contributions(Q)
    if op == "missing column":
        bad = Q.drop(columns=["b"]) if frame else Q[:, :1]
        raises(lambda: m.predict(bad))
        return None
    if op == "transform":
        return m.transform(Q)


def numbers(r):
    if isinstance(r, pd.DataFrame):
        return r.to_numpy(dtype=float, copy=True)
    if isinstance(r, dict):
        return np.array([np.asarray(r[k], dtype=float) for k in r])
    return np.array(r, dtype=float)


def scramble(r):
    """Overwrite a result (or caller data) in place."""
    if isinstance(r, pd.DataFrame):
        r.iloc[:, :] = 7
        for c in list(r.columns):
            try:
                r[c].values[...] = 77
            except ValueError:
                pass
    elif isinstance(r, dict):
        for k in list(r):
            if isinstance(r[k], np.ndarray) and r[k].flags.writeable:
                r[k][...] = 77.0
        r.clear()
    elif isinstance(r, np.ndarray) and r.flags.writeable:
        r[...] = 77


def check_est(case, rec):
    kind, how = case["kind"], case["x"]
    frame = how in FRAMES
    tag = "%s with %s of table %r, %s settings, target as %s" % (kind, how, case["table"], case["cfg"], case["y"])
    with quiet():
        world = World()
        kw = options(kind, case["cfg"], frame)
        for k in ("feature_properties", "feature_groups", "hierarchical_feature_groups", "standard_feature_groups", "external_feature_groups"):
            if k in kw:
                world.add(k, kw[k])
        X, owner = contain(raw_table(kind, case["table"], 6), how)
        world.add("feature table", X)
        if owner is not None:
            world.add("larger table", owner)
        y = target(kind, case["y"])
        world.add("target", y)
        m = construct(kind, kw)
        m.fit(X, y)
        rec.op()
        world.unchanged(tag + ": fit")
        Q, qowner = contain(raw_table(kind, case["table"], 4, True), how)
        world.add("query rows", Q)
        if qowner is not None:
            world.add("larger query table", qowner)
        first = {}
        ops = scoring_ops(kind, frame)
        if "output_column" not in kw and "transform" in ops:
            ops.remove("transform")
        for op in ops:
            if op == "transform":
                T = Q.copy()
                before = snapshot(T)
                t = m.transform(T)
                if snapshot(T) != before:
                    ensure(list(T.columns) == COLS + ["out"], lambda: "%s: transform leaves columns %s" % (tag, list(T.columns)))
                    ensure(snapshot(T[COLS]) == before, lambda: tag + ": transform changes feature columns")
                ensure(list(t.columns) == COLS + ["out"] and snapshot(t[COLS]) == before, lambda: tag + ": transform changes feature columns of its result")
                r = t["out"].to_numpy(dtype=float, copy=True)
            else:
                r = score(op, kind, m, Q, frame)
            rec.op()
            world.unchanged("%s: %s" % (tag, op))
            if r is not None:
                first[op] = numbers(r)
        imp = m.get_feature_importances()
        first["importances"] = np.array(list(imp.values()), dtype=float)
        # overwriting results, the training data or the query rows afterwards changes nothing
        for op in ops + ["importances"]:
            if op in ("missing column",):
                continue
            if op == "importances":
                scramble(m.get_feature_importances())
            else:
                scramble(score(op, kind, m, Q.copy(), frame))
            rec.op()
        scramble(imp)
        if case["y"] != "locked" and isinstance(y, np.ndarray):
            y[...] = 1
        if how != "locked" and how != "column view":
            scramble(X)
        for op in first:
            if op == "importances":
                got = np.array(list(m.get_feature_importances().values()), dtype=float)
            else:
                r = score(op, kind, m, Q.copy(), frame)
                got = r["out"].to_numpy(dtype=float) if op == "transform" else numbers(r)
            ensure(got.shape == first[op].shape, lambda: "%s: %s after results were overwritten has shape %s" % (tag, op, got.shape))
            close(got, first[op], "%s: %s after results and training data were overwritten" % (tag, op), 1e-12, 1e-13)
        # training and adding the output column in one step
        if "output_column" in kw:
            X2, _ = contain(raw_table(kind, case["table"], 6), how)
            X2 = X2.copy()
            before = snapshot(X2)
            y2 = target(kind, case["y"])
            ybefore = snapshot(y2)
            t = construct(kind, options(kind, case["cfg"], frame)).fit_transform(X2, y2)
            rec.op()
            ensure(snapshot(y2) == ybefore, lambda: tag + ": fit_transform changes the target")
            ensure(list(t.columns) == COLS + ["out"] and snapshot(t[COLS]) == before, lambda: tag + ": fit_transform changes feature columns")
            ensure(list(X2.columns) in (COLS, COLS + ["out"]) and snapshot(X2[COLS]) == before, lambda: tag + ": fit_transform changes the caller's feature columns")
    rec.trace()
    rec.state(case, first["predict"])
    rec.outcome(kind)


BIN_COLS = ["a", "b", "c"]


def bin_table(which):
    d = {
        "floats": {"a": [1.5, 2.5, 1.5, 7.0, 0.3], "b": [3.0, 3.0, 1.0, 2.0, 9.0], "c": [5.0, 5.0, 5.0, 5.0, 5.0]},
        "missing": {"a": [1.5, NAN, 1.5, 7.0, np.inf], "b": [NAN, 3.0, 1.0, -np.inf, 9.0], "c": [NAN] * 5},
        "magic": {"a": [-999.0, 2.0, 1.0, -9.0, 3.0], "b": [3.0, -9.0, 1.0, 2.0, 2.0], "c": [1.0, 2.0, 3.0, 4.0, 5.0]},
    }[which]
    return pd.DataFrame(d)


def bin_contain(X, how):
    ints = X.replace([np.inf, -np.inf], np.nan).fillna(-9).round().astype(int)
    if how == "frame":
        return X
    if how == "int frame":
        return ints
    if how == "int32 mixed":
        return X.assign(a=ints["a"].astype("int16"), b=X["b"].astype("float32"))
    if how == "odd index":
        X = X.copy()
        X.index = [4, 2, 2, 0, 9]
        return X
    if how == "array":
        return X.values.copy()
    if how == "fortran":
        return np.asfortranarray(X.values)
    if how == "strided":
        return np.repeat(np.repeat(X.values, 2, axis=0), 2, axis=1)[::2, ::2]
    if how == "int array":
        return ints.values.copy()
    if how == "locked":
        v = X.values.copy()
        v.setflags(write=False)
        return v
    raise ValueError(how)


def bin_cases(tier):
    props = [None, "all continuous", "mixed", "one", "magic"]
    hows = ["frame", "int frame", "int32 mixed", "odd index", "array", "fortran", "strided", "int array", "locked"]
    out = []
    for cls in ("number", "cdf"):
        for how, table, p in itertools.product(hows, ("floats", "missing", "magic"), props):
            for weights in (False, True):
                for inplace in ((False, True) if cls == "number" else (False,)):
                    out.append({"cls": cls, "x": how, "table": table, "props": p, "weights": weights, "inplace": inplace})
    return out


def check_bin(case, rec):
    frame = case["x"] in FRAMES
    name = (lambda c: c) if frame else (lambda c: BIN_COLS.index(c))
    p = case["props"]
    props = {
        None: None,
        "all continuous": {name(c): C for c in BIN_COLS},
        "mixed": {name("a"): U | HM, name("b"): C, name("c"): O},
        "one": {name("b"): C | HM},
        "magic": {name(c): est.C | est.MAGIC for c in BIN_COLS},
    }[p]
    n_bins = {name(c): 3 for c in BIN_COLS} if p == "mixed" else 3
    tag = "%s transformer on %s of table %r, properties %s%s%s" % (case["cls"], case["x"], case["table"], p, ", weighted" if case["weights"] else "", ", in place" if case["inplace"] else "")
    with quiet():
        world = World()
        X = bin_contain(bin_table(case["table"]), case["x"])
        world.add("feature table", X)
        world.add("feature properties", props)
        world.add("bin numbers", n_bins)
        kw = {"n_bins": n_bins, "feature_properties": props}
        if case["weights"]:
            kw["weight_column"] = name("c")
        if case["cls"] == "number":
            kw["inplace"] = case["inplace"]
        t = (binning.BinNumberTransformer if case["cls"] == "number" else binning.ECdfTransformer)(**kw)
        err = raises(lambda: t.fit(X))
        rec.op()
        world.unchanged(tag + ": fit")
        rec.state(case)
        if err is not None:
            rec.outcome("refused")
            return
        first = numbers(t.transform(X.copy()))
        rec.op()
        if not case["inplace"]:
            r = t.transform(X)
            world.unchanged(tag + ": transform")
            ensure(not (isinstance(X, np.ndarray) and np.shares_memory(r, X)), lambda: tag + ": result shares memory with the table")
            scramble(r)
            world.unchanged(tag + ": overwriting the result")
            T = (binning.BinNumberTransformer if case["cls"] == "number" else binning.ECdfTransformer)(**kw)
            raises(lambda: T.fit_transform(X))
            world.unchanged(tag + ": fit and transform")
            empty = X[:0]
            raises(lambda: t.transform(empty))
            world.unchanged(tag + ": transform of no rows")
            rec.op(3)
        b = getattr(t, "get_feature_bin_boundaries", lambda: {})()
        b.clear()
        again = X.copy()
        if case["x"] != "locked":
            scramble(X)
        got = numbers(t.transform(again))
        close(got, first, tag + ": transform after results and training data were overwritten", 1e-12, 1e-13)
    rec.trace()
    rec.outcome(case["cls"])


def other_cases(tier):
    out = [{"what": w} for w in ("selection", "selection classification", "chain S", "chain B", "pipeline", "quantiles")]
    out += [{"what": "smoother", "smoother": s, "locked": l} for s in SMOOTHERS for l in (False, True)]
    return out


SMOOTHERS = {
    "bin values": (True, lambda: onedim.BinValuesSmoother()),
    "prior": (True, lambda: onedim.RegularizeToPriorExpectationSmoother(1.0)),
    "one": (True, lambda: onedim.RegularizeToOneSmoother()),
    "weighted mean": (True, lambda: onedim.WeightedMeanSmoother()),
    "neighbours": (True, lambda: onedim.WeightedMeanSmootherNeighbors()),
    "polynomial": (True, lambda: onedim.OrthogonalPolynomialSmoother()),
    "seasonal": (True, lambda: onedim.SeasonalSmoother(order=1)),
    "seasonal lasso": (True, lambda: onedim.SeasonalLassoSmoother()),
    "prior meta": (True, lambda: onedim.PriorExpectationMetaSmoother(onedim.WeightedMeanSmoother(), 1.0)),
    "univariate spline": (True, lambda: onedim.UnivariateSplineSmoother()),
    "polynomial k": (True, lambda: onedim.PolynomialSmoother(k=1)),
    "linear": (True, lambda: onedim.LinearSmoother()),
    "spline": (True, lambda: onedim.LSQUnivariateSpline([2.0], 2)),
    "isotonic": (True, lambda: onedim.IsotonicRegressor()),
    "interpolating": (True, lambda: meta_smoother.RegressionTypeSmoother(onedim.PolynomialSmoother(k=1), meta_smoother.RegressionType.interpolating)),
    "discontinuous": (True, lambda: meta_smoother.RegressionTypeSmoother(onedim.BinValuesSmoother(), meta_smoother.RegressionType.discontinuous)),
    "normalised": (True, lambda: meta_smoother.NormalizationSmoother(onedim.WeightedMeanSmoother())),
    "normalised interpolating": (True, lambda: meta_smoother.NormalizationRegressionTypeSmoother(onedim.PolynomialSmoother(k=1), meta_smoother.RegressionType.interpolating)),
    "section": (True, lambda: meta_smoother.SectionSmoother(1.5, onedim.PolynomialSmoother(k=1), onedim.BinValuesSmoother())),
    "grid bin values": (False, lambda: multidim.BinValuesSmoother()),
    "grid prior": (False, lambda: multidim.RegularizeToPriorExpectationSmoother(1.0)),
    "grid one": (False, lambda: multidim.RegularizeToOneSmoother()),
    "grid weighted mean": (False, lambda: multidim.WeightedMeanSmoother()),
    "grid prior meta": (False, lambda: multidim.PriorExpectationMetaSmoother(multidim.WeightedMeanSmoother(), 1.0)),
    "group by": (False, lambda: multidim.GroupBySmoother(onedim.WeightedMeanSmoother(), 2)),
    "group by effects": (False, lambda: multidim.GroupBySmootherCB(onedim.WeightedMeanSmoother(), 2)),
    "neutralised": (False, lambda: multidim.Neutralize2DMetaSmoother(multidim.WeightedMeanSmoother())),
}


def check_other(case, rec):
    what = case["what"]
    world = World()
    with quiet():
        if what == "smoother":
            one, factory = SMOOTHERS[case["smoother"]]
            s = factory()
            if one:
                X = np.c_[np.arange(5.0), [1.0, 2.0, 0.0, 1.0, 3.0], [0.5, 0.2, 1.0, 0.4, 0.3]]
            else:
                X = np.c_[np.repeat(np.arange(3.0), 2), np.tile(np.arange(2.0), 3), [1.0, 2.0, 0.0, 1.0, 3.0, 1.0], [0.5, 0.2, 1.0, 0.4, 0.3, 0.6]]
            y = np.array([0.1, -0.3, 0.4, 0.2, 0.0, -0.2])[: len(X)]
            d = 1 if one else 2
            Q = np.ascontiguousarray(X[:, :d])
            Q = np.r_[Q, Q[:1] + 0.0]
            if case["locked"]:
                for v in (X, y, Q):
                    v.setflags(write=False)
            for k, v in (("effects table", X), ("effects", y), ("query rows", Q)):
                world.add(k, v)
            err = raises(lambda: s.fit(X, y))
            world.unchanged("fitting the %s smoother" % case["smoother"])
            ensure(err is None or not case["locked"] or not isinstance(err, ValueError) or "read-only" not in str(err), lambda: "fitting the %s smoother writes to its input: %s" % (case["smoother"], err))
            rec.op(2)
            rec.state(case)
            if err is not None:
                rec.outcome("refused")
                return
            p = np.array(s.predict(Q), dtype=float)
            world.unchanged("predicting with the %s smoother" % case["smoother"])
            scramble(s.predict(Q))
            close(np.array(s.predict(Q), dtype=float), p, "%s smoother after its results were overwritten" % case["smoother"], 1e-12, 1e-13)
        elif what.startswith("selection"):
            X = pd.DataFrame({"a": [1.0, 2.0, 3.0, 1.0, 2.0, 3.0, 1.0, NAN], "b": [0.5, 0.1, 0.9, 0.3, 0.7, 0.2, 0.8, 0.4], "c": [1, 1, 2, 2, 1, 2, 2, 1]}, index=range(3, 11))
            y = np.array([1.0, 0.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0]) if "class" in what else np.array([1.0, 2.0, 3.0, 1.5, 2.5, 0.5, 4.0, 2.0])
            props = {"a": U | HM, "b": C, "c": O}
            feats = ["a", "b", "c"]
            for k, v in (("feature table", X), ("target", y), ("feature properties", props), ("feature list", feats)):
                world.add(k, v)
            inter = interaction_selection.create_interactions(feats, 2)
            world.add("interactions", inter)
            world.unchanged("listing interactions")
            interaction_selection.build_binned_interaction_features(X, inter, props, 3)
            world.unchanged("building interaction features")
            got = interaction_selection.select_interaction_terms_anova(X, y, props, 2, 2, "class" in what)
            world.unchanged("selecting interactions")
            rec.op(3)
            rec.state(case, got)
        elif what.startswith("chain"):
            X = pd.DataFrame({"a": [1.0, 2.0, 3.0, 1.0, 2.0, 3.0], "b": [0.5, 0.1, 0.9, 0.3, 0.7, 0.2]}, index=range(2, 8))
            y = np.array([1.0, 2.0, 3.0, 1.5, 2.5, 0.5])
            y.setflags(write=False)
            chain = quantile_matching.QPD_RegressorChain(LinearRegression(), LinearRegression(), LinearRegression(), bound=what[-1], l=0.0, u=10.0)
            world.add("feature table", X)
            world.add("target", y)
            err = raises(lambda: chain.fit(X, y))
            world.unchanged("fitting the quantile chain")
            ensure(err is None, lambda: "fitting the quantile chain: %r" % err)
            r = chain.predict(X)
            world.unchanged("predicting with the quantile chain")
            want = [np.array(v, dtype=float) for v in r[:3]]
            for v in r[:3]:
                scramble(v)
            again = chain.predict(X)
            for v, w in zip(again[:3], want):
                close(np.array(v, dtype=float), w, "quantile chain after its results were overwritten", 1e-12, 1e-13)
            rec.op(3)
            rec.state(case)
        elif what == "quantiles":
            for cls in (quantile_matching.J_QPD_S, quantile_matching.J_QPD_B):
                lo, mi, hi = np.array([1.0, 2.0]), np.array([2.0, 3.0]), np.array([4.0, 5.5])
                x, q = np.array([0.2, 0.6]), np.array([1.5, 4.0])
                for k, v in (("low", lo), ("median", mi), ("high", hi), ("probabilities", x), ("values", q)):
                    v.setflags(write=False)
                    world.add(k, v)
                d = cls(0.1, lo, mi, hi, 0.0, 10.0) if cls is quantile_matching.J_QPD_B else cls(0.1, lo, mi, hi, 0.0)
                want = np.array(d.ppf(x)), np.array(d.cdf(q))
                world.unchanged(cls.__name__)
                scramble(d.ppf(x))
                scramble(d.cdf(q))
                close(np.array(d.ppf(x)), want[0], cls.__name__ + " after its results were overwritten", 1e-12, 1e-13)
                close(np.array(d.cdf(q)), want[1], cls.__name__ + " after its results were overwritten", 1e-12, 1e-13)
                rec.op(4)
            rec.state(case)
        else:
            X = pd.DataFrame({"a": [1.0, 2.0, NAN, 1.0, 2.0, 3.0], "b": [0.5, 0.1, 0.9, 0.3, NAN, 0.2], "w": [1.0, 2.0, 1.0, 1.0, 3.0, 1.0]}, index=range(2, 8))
            y = np.array([1.0, 2.0, 3.0, 0.0, 2.0, 5.0])
            props = {"a": U | HM, "b": C | HM}
            for k, v in (("feature table", X), ("target", y), ("feature properties", props)):
                world.add(k, v)
            for kw in ({}, {"weight_column": "w"}, {"feature_groups": ["a", ("a", "b")]}):
                p = pipelines.pipeline_CBPoissonRegressor(feature_properties=props, maximal_iterations=2, **dict({"feature_groups": ["a", "b"]}, **kw))
                p.fit(X, y)
                world.unchanged("fitting the pipeline")
                want = np.array(p.predict(X))
                world.unchanged("predicting with the pipeline")
                scramble(p.predict(X))
                close(p.predict(X), want, "pipeline after its results were overwritten", 1e-12, 1e-13)
                rec.op(4)
            rec.state(case)
    rec.trace()
    rec.outcome(what)


def spaces(tier):
    return [
        Space("estimators", lambda: est_cases(tier), check_est, "13 estimators x 5 frame and 5 array containers x missing patterns x 4 settings x 6 target containers (deterministic share in quick); fit, every scoring call, results and training data overwritten", warm=est.warm_basic, warm_in_child=True),
        Space("binning", lambda: bin_cases(tier), check_bin, "both transformers x 9 containers x 3 tables x 5 property sets x weighted x in place"),
        Space("others", lambda: other_cases(tier), check_other, "smoothers, interaction selection, quantile chains and distributions, pipelines"),
    ]
