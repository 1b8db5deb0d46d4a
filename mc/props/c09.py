"""C09: invalid use is refused."""
import itertools

import numpy as np
import pandas as pd

from cyclic_boosting import flags, pipelines, quantile_matching as qm
from cyclic_boosting.binning import BinNumberTransformer, ECdfTransformer
from cyclic_boosting.features import FeatureID, FeatureTypes
from cyclic_boosting.price import CBExponential
from mc.core import ensure, raises, snapshot
from mc.est import C, GENERIC, HM, MULT, O, REGS, U, frame, make, raw_predict, targets, warm_basic
from mc.run import Space

ASSUMPTIONS = ["any exception counts as a refusal"]
KINDS = REGS + ["expo", "nbinomc"] + GENERIC
NAN, INF = float("nan"), float("inf")
ROWS = [(0, 0), (1, 0), (0, 1), (1, 1), (-1, 0), (0, 1)]


def bad_targets(kind):
    if kind in ("classifier", "gclf"):
        return [NAN, INF, -1.0, 0.5, 2.0, 1.0000001, -1e-9]
    if kind in MULT or kind == "nbinomc":
        return [NAN, INF, -INF, -1.0, -1e-9]
    return [NAN, INF, -INF]


def data(kind, extra=()):
    X = frame({"a": [r[0] for r in ROWS], "b": [r[1] for r in ROWS]}, kind)
    ys = targets(kind)
    y = np.array([ys[i % len(ys)] for i in (0, 1, 2, 1, 2, 0)])
    X["w"] = [1.0, 2.0, 1.0, 1.0, 3.0, 1.0]
    X["p"] = [0.2, 0.5, 0.7, 0.4, 0.3, 0.6]
    return X, y


def refused(rec, what, fn, guard=None):
    before = snapshot(guard) if guard is not None else None
    e = raises(fn)
    rec.op()
    ensure(e is not None, "%s was accepted" % what)
    if guard is not None:
        ensure(snapshot(guard) == before, "%s was rejected but changed the caller's data" % what)
    return e


def build(kind, props=True, **kw):
    return make(kind, ["a", ["a", "b"]] if kind not in GENERIC else ["a"], {"a": U | HM, "b": U} if props else None, maximal_iterations=2, **kw)


def target_cases(tier):
    for kind in KINDS:
        for i in range(len(ROWS)):
            for b in bad_targets(kind):
                for op in ("fit", "fit_transform"):
                    for container in ("array", "series", "list") if op == "fit" else ("array",):
                        yield {"kind": kind, "i": i, "bad": b, "op": op, "container": container}


def looks_unfitted(rec, m, kind, X):
    refused(rec, "predicting with a model whose training was rejected", lambda: m.predict(X))
    refused(rec, "importances of a model whose training was rejected", lambda: m.get_feature_importances())


def check_target(case, rec):
    kind = case["kind"]
    X, y = data(kind)
    y[case["i"]] = case["bad"]
    m = build(kind, output_column="out")
    arg = {"array": y, "series": pd.Series(y), "list": list(y)}[case["container"]]
    refused(rec, "%s: target %r in row %d (%s)" % (kind, case["bad"], case["i"], case["op"]), lambda: getattr(m, case["op"])(X, arg), X)
    looks_unfitted(rec, m, kind, X)
    rec.trace()
    rec.state(kind, case["bad"], case["op"], case["container"])


USES = [
    "empty", "empty_x", "empty_y", "short_y", "one_y", "long_y", "no_y", "no_feature_fit", "no_feature_predict", "no_weight", "no_prior_fit", "no_prior_predict",
    "predict_unfitted", "proba_unfitted", "transform_unfitted", "contrib_unfitted", "importances_unfitted", "extended_unfitted", "predict_unfitted_default",
    "out_exists_fit", "out_exists_transform", "no_out_fit", "no_out_transform", "array_out", "empty_groups", "bad_smoother", "category_missing",
    "no_external_fit", "no_external_predict", "no_mean_fit", "flags_ordered_unordered", "flags_continuous_unordered", "flags_continuous_ordered",
    "flags_none", "flags_updown", "flags_group_second", "nan_prior_column_name",
    "external_no_standard", "external_in_standard", "standard_in_external",
]


def use_cases(tier):
    for kind in KINDS:
        for use in USES:
            if use.startswith("flags") and kind != "poisson":
                continue
            if "external" in use and kind != "expo":
                continue
            if use == "no_mean_fit" and kind != "nbinomc":
                continue
            if "prior" in use and kind == "gbs":
                continue
            if use.endswith("default") and kind == "expo":
                continue
            if use == "empty_groups" and kind == "expo":
                continue
            if use == "proba_unfitted" and kind != "classifier":
                continue
            yield {"kind": kind, "use": use}


def check_use(case, rec):
    kind, use = case["kind"], case["use"]
    X, y = data(kind)
    fresh = None

    def fitted(**kw):
        return build(kind, **kw).fit(X.copy(), y)

    def go(what, fn, guard=X):
        refused(rec, "%s: %s" % (kind, what), fn, guard)

    if use == "empty":
        fresh = build(kind)
        go(use, lambda: fresh.fit(X.iloc[:0], y[:0]))
    elif use == "empty_x":
        fresh = build(kind)
        go(use, lambda: fresh.fit(X.iloc[:0], y))
    elif use == "empty_y":
        fresh = build(kind)
        go(use, lambda: fresh.fit(X, y[:0]))
    elif use == "short_y":
        for k in range(2, len(y)):
            fresh = build(kind)
            go("target shorter than the data (%d)" % k, lambda: fresh.fit(X, y[:k]))
    elif use == "one_y":
        fresh = build(kind)
        go("one target for %d rows" % len(X), lambda: fresh.fit(X, y[1:2]))
    elif use == "long_y":
        fresh = build(kind)
        go("target longer than the data", lambda: fresh.fit(X, np.r_[y, y]))
        fresh = build(kind)
        go("one row, many targets", lambda: fresh.fit(X.iloc[:1], y))
    elif use == "no_y":
        fresh = build(kind)
        go(use, lambda: fresh.fit(X))
    elif use == "no_feature_fit":
        for c in ("a", "b") if kind not in GENERIC else ("a",):
            fresh = build(kind)
            Xc = X.drop(columns=[c])
            go("training without column %s" % c, lambda: fresh.fit(Xc, y), Xc)
    elif use == "no_feature_predict":
        m = fitted()
        for c in ("a", "b") if kind not in GENERIC else ("a",):
            Xc = X.drop(columns=[c])
            go("predicting without column %s" % c, lambda: m.predict(Xc), Xc)
            go("contributions without column %s" % c, lambda: m.get_feature_contributions(Xc), Xc)
    elif use == "no_weight":
        fresh = build(kind, weight_column="ww")
        go(use, lambda: fresh.fit(X, y))
    elif use == "no_prior_fit":
        fresh = build(kind, prior_prediction_column="pp")
        go(use, lambda: fresh.fit(X, y))
    elif use == "no_prior_predict":
        m = fitted(prior_prediction_column="p")
        Xc = X.drop(columns=["p"])
        go(use, lambda: m.predict(Xc), Xc)
    elif use == "nan_prior_column_name":
        m = fitted(prior_prediction_column="p")
        Xc = X.rename(columns={"p": "P"})
        go(use, lambda: m.predict(Xc), Xc)
    elif use == "predict_unfitted":
        go(use, lambda: build(kind).predict(X))
    elif use == "predict_unfitted_default":
        from mc.est import make as mk

        go(use, lambda: mk(kind, None, None).predict(X))
    elif use == "proba_unfitted":
        go(use, lambda: build(kind).predict_proba(X))
    elif use == "transform_unfitted":
        go(use, lambda: build(kind, output_column="out").transform(X))
    elif use == "contrib_unfitted":
        go(use, lambda: build(kind).get_feature_contributions(X))
    elif use == "importances_unfitted":
        go(use, lambda: build(kind).get_feature_importances())
    elif use == "extended_unfitted":
        go(use, lambda: build(kind).predict_extended(X))
    elif use in ("out_exists_fit", "out_exists_transform"):
        X["out"] = 7.0
        if use == "out_exists_fit":
            fresh = build(kind, output_column="out")
            go(use, lambda: fresh.fit_transform(X, y))
        else:
            m = build(kind, output_column="out").fit(X.drop(columns=["out"]), y)
            go(use, lambda: m.transform(X))
    elif use == "no_out_fit":
        fresh = build(kind)
        go(use, lambda: fresh.fit_transform(X, y))
    elif use == "no_out_transform":
        m = fitted()
        go(use, lambda: m.transform(X))
    elif use == "array_out":
        fresh = build(kind, output_column="out")
        A = X.values
        go(use, lambda: fresh.fit_transform(A, y), A)
    elif use == "empty_groups":
        go(use, lambda: make(kind, [], {"a": U}).fit(X, y))
    elif use == "bad_smoother":
        go(use, lambda: build(kind, smoother_choice="weighted"))
    elif use == "category_missing":
        m = fitted()
        go(use, lambda: m.predict_extended(X, {"zzz": "k"}))
    elif use in ("no_external_fit", "no_external_predict"):
        Xc = X.drop(columns=["price"])
        if use == "no_external_fit":
            fresh = build(kind)
            go(use, lambda: fresh.fit(Xc, y), Xc)
        else:
            m = fitted()
            go(use, lambda: m.predict(Xc), Xc)
    elif use == "external_no_standard":
        go(use, lambda: CBExponential("price", None, ["b"], feature_properties={"a": U, "b": U}).fit(X, y))
    elif use == "external_in_standard":
        go(use, lambda: CBExponential("price", ["a", FeatureID(("b",), FeatureTypes.external)], ["b"], feature_properties={"a": U, "b": U}).fit(X, y))
    elif use == "standard_in_external":
        go(use, lambda: CBExponential("price", ["a"], [FeatureID(("b",), None)], feature_properties={"a": U, "b": U}).fit(X, y))
    elif use == "no_mean_fit":
        Xc = X.drop(columns=["mu"])
        fresh = build(kind)
        go(use, lambda: fresh.fit(Xc, y), Xc)
    elif use.startswith("flags"):
        bad = {
            "flags_ordered_unordered": U | O,
            "flags_continuous_unordered": U | C,
            "flags_continuous_ordered": C | O | HM,
            "flags_none": HM,
            "flags_updown": C | flags.INCREASING | flags.DECREASING,
            "flags_group_second": O | U | C,
        }[use]
        for cls in (BinNumberTransformer, ECdfTransformer):
            for col in ("a", "b"):
                props = {"a": U, "b": U}
                props[col] = bad
                go("contradictory flags %d for column %s in binning" % (bad, col), lambda: cls(feature_properties=props, n_bins=3).fit(X))
    if fresh is not None:
        Xp = data(kind)[0]
        looks_unfitted(rec, fresh, kind, Xp)
    rec.trace()
    rec.state(kind, use)


def binner_cases(tier):
    out = []
    for cls in ("bin", "ecdf"):
        for nf, nt in itertools.product(range(1, 5), range(0, 6)):
            for cont in ("df", "array"):
                for weight in (False, True):
                    out.append({"cls": cls, "fit": nf, "tr": nt, "cont": cont, "w": weight})
    return out


def check_binner(case, rec):
    cls = BinNumberTransformer if case["cls"] == "bin" else ECdfTransformer

    def tab(n, rows=5):
        v = np.array([[float((i * (j + 2)) % 4) for j in range(n)] for i in range(rows)]).reshape(rows, n)
        if case["w"]:
            v = np.c_[np.ones(rows), v]
        if case["cont"] == "df":
            return pd.DataFrame(v, columns=(["w"] if case["w"] else []) + ["c%d" % j for j in range(n)])
        return v

    kw = {"weight_column": "w" if case["cont"] == "df" else 0} if case["w"] else {}
    X = tab(case["fit"])
    t = cls(n_bins=3, **kw)
    refused(rec, "transform before fit", lambda: t.transform(X), X)
    refused(rec, "fitting bins on no rows", lambda: t.fit(X[:0]))
    refused(rec, "transform after a rejected fit", lambda: t.transform(X), X)
    t.fit(X)
    rec.op()
    Q = tab(case["tr"])
    if case["tr"] != case["fit"]:
        refused(rec, "binning %d columns with bins of %d" % (case["tr"], case["fit"]), lambda: t.transform(Q), Q)
    else:
        ensure(raises(lambda: t.transform(Q)) is None, "binning the fitted columns was refused")
    for nb in (1, 0, -2):
        refused(rec, "n_bins=%d" % nb, lambda: cls(n_bins=nb, **kw).fit(X), X)
    if case["w"]:
        kw2 = {"weight_column": "nope" if case["cont"] == "df" else 77}
        refused(rec, "missing weight column in binning", lambda: cls(n_bins=3, **kw2).fit(X), X)
    if case["cont"] == "df" and not case["w"]:
        # renamed column: same number, one name unknown
        if case["tr"] == case["fit"]:
            R = X.rename(columns={"c0": "zz"})
            refused(rec, "binning a frame that lacks a fitted column", lambda: t.transform(R), R)
        for bad in (U | O, U | C, O | C, HM):
            for col in X.columns:
                props = {c: U for c in X.columns}
                props[col] = bad
                refused(rec, "contradictory flags in binning", lambda: cls(n_bins=3, feature_properties=props).fit(X), X)
    refused(rec, "binning a list", lambda: cls(n_bins=3).fit([[1.0, 2.0]]))
    rec.trace()
    rec.state(case["cls"], case["fit"], case["tr"], case["cont"], case["w"])


def qpd_cases(tier):
    vals = [0.5, 1.0, 2.0, 3.0]
    for name in ("S", "B", "extended_S", "extended_B", "extended_U"):
        for t in itertools.product(range(4), repeat=3):
            for scalar in (True, False) if not name.startswith("ext") else (True,):
                yield {"qpd": name, "t": [vals[i] for i in t], "scalar": scalar}


def check_qpd(case, rec):
    l, m, h = case["t"]
    if not case["scalar"]:
        l, m, h = np.array([0.5, l, 1.0]), np.array([1.0, m, 1.5]), np.array([2.0, h, 3.0])

    def go():
        if case["qpd"] == "S":
            return qm.J_QPD_S(0.2, l, m, h)
        if case["qpd"] == "B":
            return qm.J_QPD_B(0.2, l, m, h, 0.0, 10.0)
        if case["qpd"] == "extended_S":
            return qm.J_QPD_extended_S(0.2, l, m, h)
        if case["qpd"] == "extended_B":
            return qm.J_QPD_extended_B(0.2, l, m, h, 0.0, 10.0)
        return qm.J_QPD_extended_U(0.2, l, m, h)

    with np.errstate(all="ignore"):
        e = raises(go)
    rec.op()
    t = case["t"]
    if t[0] > t[1] or t[1] > t[2]:
        ensure(e is not None, "quantiles out of order %s accepted by %s" % (t, case["qpd"]))
    elif t[0] < t[1] < t[2]:
        ensure(e is None, "ordered quantiles %s refused by %s: %r" % (t, case["qpd"], e))
    if case["scalar"]:
        refused(rec, "unknown version", lambda: getattr(qm, "J_QPD_" + case["qpd"])(0.2, *((0.5, 1.0, 2.0) + ((0.0, 10.0) if case["qpd"].endswith("B") else ())), version="gauss"))
    rec.trace()
    rec.state(case["qpd"], case["t"], e is None)


FLAG_BITS = [U, O, C, flags.IS_LINEAR, flags.IS_SEASONAL, flags.IS_MONOTONIC, HM, flags.MISSING_NOT_LEARNED, flags.INCREASING, flags.DECREASING]


def flag_cases(tier):
    for bits in itertools.product((0, 1), repeat=len(FLAG_BITS)):
        yield {"bits": list(bits)}


def check_flags(case, rec):
    v = 0
    for b, f in zip(case["bits"], FLAG_BITS):
        if b:
            v |= f
    u, o, c, lin, sea, mono, hm, mnl, inc, dec = case["bits"]
    kinds = u + o + int(bool(c or mono))
    bad = kinds != 1 or (inc and dec)
    X = pd.DataFrame({"a": [0.0, 1.0, 2.0, 1.0], "b": [0.0, 1.0, 1.0, 0.0]})
    for what, fn in (
        ("consistency check", lambda: flags.check_flags_consistency(v)),
        ("bin numbers", lambda: BinNumberTransformer(n_bins=2, feature_properties={"a": v, "b": U}).fit(X)),
        ("cumulative distribution", lambda: ECdfTransformer(n_bins=2, feature_properties={"b": U, "a": v}).fit(X)),
    ):
        e = raises(fn)
        rec.op()
        if bad:
            ensure(e is not None, "%s: contradictory flags %s accepted" % (what, case["bits"]))
        else:
            ensure(e is None, "%s: valid flags %s refused" % (what, case["bits"]))
    rec.outcome("refused" if bad else "accepted")
    rec.trace()
    rec.state(v)


def pipe_cases(tier):
    return [{"name": n} for n in ("CBnope", None, "", "cbpoissonregressor")]


def check_pipe(case, rec):
    refused(rec, "pipeline for unknown estimator %r" % (case["name"],), lambda: pipelines.pipeline_CB(estimator=case["name"], feature_groups=["a"]))
    rec.trace()
    rec.state(case["name"])


def spaces(tier):
    return [
        Space("targets", lambda: list(target_cases(tier)), check_target, "13 estimators, every row position, every kind of invalid target, fit and fit_transform, 3 target containers", warm=warm_basic),
        Space("uses", lambda: list(use_cases(tier)), check_use, "13 estimators x %d kinds of invalid use" % len(USES)),
        Space("binners", lambda: binner_cases(tier), check_binner, "2 binners, 1-4 fitted against 0-5 given columns, data frame/array, with/without weight column"),
        Space("quantiles", lambda: list(qpd_cases(tier)), check_qpd, "5 distributions, all triplets over 4 values, scalar and as middle array element"),
        Space("flags", lambda: list(flag_cases(tier)), check_flags, "all 1024 combinations of 10 flags"),
        Space("pipelines", lambda: pipe_cases(tier), check_pipe, "4 unknown estimator names"),
    ]
