"""C12: refitting forgets everything learned before."""
import copy
import itertools

import numpy as np
import pandas as pd
from sklearn.base import clone

from cyclic_boosting import pipelines
from cyclic_boosting import common_smoothers as cs
from cyclic_boosting import learning_rate as lr
import cyclic_boosting as cb
from cyclic_boosting.binning import BinNumberTransformer, ECdfTransformer
from cyclic_boosting.quantile_matching import QPD_RegressorChain
from mc.core import close, ensure, raises, snapshot
from mc.est import C, GENERIC, HM, O, REGS, U, costs_abs, frame, make, raw_predict, targets, warm_basic
from mc.run import Space, isolated

ASSUMPTIONS = []
NAN = float("nan")
DATA = {
    # different sizes, bin counts, missing patterns and targets
    "A": [(0, 0), (1, 1), (0, 1), (1, 0), (0, 0)],
    "B": [(2, 1), (0, 0), (-1, 1), (1, 1), (3, 0), (2, 0), (NAN, 2)],
    "C": [(0, -1), (0, 0), (0, -1)],
}
YS = {"A": [0, 1, 2, 1, 0], "B": [2, 2, 0, 1, 0, 1, 2], "C": [1, 0, 1]}


def data(kind, name, ctr=None):
    rows = DATA[name]
    X = frame({"a": [r[0] for r in rows], "b": [r[1] for r in rows]}, kind)
    t = targets(kind)
    y = np.array([t[i % len(t)] for i in YS[name]])
    X["w"] = (np.arange(len(rows)) % 3 + 1.0)
    X["p"] = 0.2 + 0.1 * (np.arange(len(rows)) % 5)
    return X, y


def query(kind):
    q = list(itertools.product((-1, 0, 1, 2, 3, 7), (-1, 0, 1, 2)))
    X = frame({"a": [r[0] for r in q], "b": [r[1] for r in q]}, kind)
    X["p"] = np.linspace(0.1, 0.9, len(q))
    X["w"] = 1.0
    return X


CONFIGS = {
    "plain": dict(groups=["a", ["a", "b"]], props={"a": C | HM, "b": U | HM}),
    "default": dict(groups=None, props=None),
    "opts": dict(groups=["b", "a"], props={"a": O, "b": U}, weight_column="w", prior_prediction_column="p"),
    "hier": dict(groups=["b", "a"], props={"a": U, "b": U}, hierarchical_feature_groups=["a"]),
    "noagg": dict(groups=["a", "b"], props={"a": U, "b": U}, aggregate=False),
    "explicit": dict(groups=["a", "b"], props={"a": U, "b": C}, explicit=True),
}


def build(kind, cfg, sc=None):
    c = dict(CONFIGS[cfg])
    g, p = c.pop("groups"), c.pop("props")
    if kind == "gbs":
        c.pop("prior_prediction_column", None)
    if kind == "nbinomc":
        c.pop("weight_column", None)
    if c.pop("explicit", False):
        from cyclic_boosting.smoothing.onedim import WeightedMeanSmoother

        c["smoother_choice"] = cs.SmootherChoiceWeightedMean(explicit_smoothers={("a",): WeightedMeanSmoother()})
    if sc is not None:
        c["smoother_choice"] = sc
    if kind == "expo":
        g = g or ["a", "b"]
        return make(kind, g, p or {"a": U, "b": U}, external=["b"], maximal_iterations=2, output_column="out", **c)
    return make(kind, g, p, maximal_iterations=5 if cfg == "hier" else 2, output_column="out", **c)


def report(kind, m):
    Q = query(kind)
    con = m.get_feature_contributions(Q)
    imp = m.get_feature_importances()
    return {
        "predictions": raw_predict(kind, m, Q),
        "contribution keys": sorted(con),
        "contributions": np.array([con[k] for k in sorted(con)]),
        "importance keys": sorted(imp),
        "importances": np.array([imp[k] for k in sorted(imp)]),
        "loss": float(m.insample_loss_),
        "iterations": int(m.iteration_),
        "stop": tuple(bool(b) for b in m.stop_criteria_),
        "base": float(m.global_scale_link_),
        "offset": 0.0 if m.prior_pred_link_offset_ is None else float(m.prior_pred_link_offset_),
    }


def same(got, want, what):
    for k in want:
        if isinstance(want[k], np.ndarray) or isinstance(want[k], float):
            close(got[k], want[k], "%s: %s" % (what, k), 1e-12, 1e-13)
        else:
            ensure(got[k] == want[k], lambda: "%s: %s is %r instead of %r" % (what, k, got[k], want[k]))


OPS = ["fitA", "fitB", "fitC", "ftB", "bad_y", "bad_col", "predict", "transform"]


def apply(op, kind, m):
    if op.startswith("fit"):
        X, y = data(kind, op[-1])
        m.fit(X, y)
    elif op == "ftB":
        X, y = data(kind, "B")
        m.fit_transform(X, y)
    elif op == "bad_y":
        X, y = data(kind, "A")
        y[-1] = NAN
        raises(lambda: m.fit(X, y))
    elif op == "bad_col":
        # fails late: after features and base value were set up
        X, y = data(kind, "B")
        X["a"] = X["a"].astype(object)
        X.loc[2, "a"] = "text"
        raises(lambda: m.fit(X, y))
    elif op == "predict":
        raises(lambda: m.predict(query(kind)))
    elif op == "transform":
        raises(lambda: m.transform(query(kind)))


def seq_cases(tier):
    out = []
    k = 0
    for kind in REGS + ["expo", "nbinomc"]:
        for cfg in CONFIGS:
            if kind in ("expo", "nbinomc") and cfg in ("hier", "noagg", "default"):
                continue
            depth = 2 if tier == "quick" else 3
            for d in range(1, depth + 1):
                for seq in itertools.product(OPS, repeat=d):
                    k += 1
                    if d == 2 and tier == "quick" and k % 2:
                        continue
                    if d == 3 and k % 4:
                        continue
                    if all(o in ("predict", "transform", "bad_y") for o in seq) and d > 1:
                        continue
                    out.append({"kind": kind, "cfg": cfg, "seq": list(seq), "final": "ABC"[k % 3]})
    for kind in ("poisson", "classifier"):
        for seq in itertools.product(OPS, repeat=3):
            out.append({"kind": kind, "cfg": "plain", "seq": list(seq), "final": "A"}) if tier != "quick" or kind == "poisson" else None
    for kind in GENERIC:
        for seq in [["fitB"], ["fitC", "bad_y"], ["bad_col"]] if tier == "quick" else [[o] for o in OPS] + [["fitB", "bad_col"], ["fitC", "predict"]]:
            out.append({"kind": kind, "cfg": "opts", "seq": list(seq), "final": "A"})
    return out


_fresh = {}


def fresh(key):
    kind, cfg, final = key
    f = build(kind, cfg)
    f.fit(*data(kind, final))
    return report(kind, f)


def fresh_or_error(key):
    try:
        return fresh(key)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def warm_fresh(cases):
    """Reference results, each from a process that has done nothing else."""

    def go():
        warm_basic()
        keys = sorted({(c["kind"], c["cfg"], c["final"]) for c in cases})
        _fresh.update(zip(keys, isolated(fresh_or_error, keys)))

    return go


def check_seq(case, rec):
    kind, cfg, final = case["kind"], case["cfg"], case["final"]
    m = build(kind, cfg)
    before = snapshot(params(m))
    for op in case["seq"]:
        apply(op, kind, m)
        rec.op()
    ensure(snapshot(params(m)) == before, "constructor arguments changed by %s" % case["seq"])
    X, y = data(kind, final)
    m.fit(X, y)
    rec.op(2)
    key = (kind, cfg, final)
    if key not in _fresh:
        _fresh[key] = fresh(key)
    ensure(isinstance(_fresh[key], dict), "training a fresh model fails: %s" % _fresh[key])
    got = report(kind, m)
    same(got, _fresh[key], "%s after %s and fit%s against a fresh model" % (kind, case["seq"], final))
    rec.trace()
    rec.state(kind, cfg, final, got["predictions"])


DIVERGE = {"a": ([(-1, 0), (-1, 1), (0, 0), (0, 1)], [1.0, 1.0, 1.0, 30.0], 0.2), "b": ([(-1, 0), (-1, 1), (0, 0), (0, 1)], [1.0, 1.0, 1.0, 30.0], 0.02), "c": ([(0, 0), (1, 1), (0, 1), (1, 0), (2, 0)], [1.0, 5.0, 2.0, 2.0, 7.0], 0.0), "d": ([(0, 0), (1, 1), (0, 1), (1, 0), (2, 0)], [1.0, 5.0, 2.0, 2.0, 7.0], 3.0)}


def diverge_cases(tier):
    """A prior that already fits makes cycles diverge; whatever came of that must be forgotten."""
    out = []
    for kind in ("poisson", "nbinom", "mquant", "location"):
        for agg in (True, False):
            for d in range(1, 4 if tier == "quick" else 6):
                if d == 3 and tier == "quick" and kind != "poisson":
                    continue
                for seq in itertools.product("abcd", repeat=d):
                    for final in "abcd":
                        out.append({"kind": kind, "agg": agg, "seq": list(seq), "final": final})
    return out


def diverge_fit(m, name):
    rows, y, eps = DIVERGE[name]
    X = frame({"a": [r[0] for r in rows], "b": [r[1] for r in rows]})
    y = np.array(y)
    X["p"] = y * (1 + eps * np.array([1, -1, 1, 1, -1][: len(y)])) if eps < 1 else y * [1, 2, 1, 1, 3]
    X["p"] = X["p"].clip(lower=0.1)
    try:
        m.fit(X, y)
    except cb.utils.ConvergenceError:
        return "convergence error"
    return raw_predict("poisson", m, X)


def diverge_new(case):
    return make(case["kind"], ["a", "b"], {"a": U, "b": U}, prior_prediction_column="p", maximal_iterations=4, aggregate=case["agg"])


def check_diverging(case, rec):
    m, f = diverge_new(case), diverge_new(case)
    for name in case["seq"]:
        diverge_fit(m, name)
        rec.op()
    got, want = diverge_fit(m, case["final"]), diverge_fit(f, case["final"])
    rec.op(2)
    what = "%s after trainings %s" % (case["kind"], case["seq"])
    ensure(isinstance(got, str) == isinstance(want, str), lambda: "%s: %s, fresh model: %s" % (what, got, want))
    ensure(m.iteration_ == f.iteration_, lambda: "%s: %d cycles, fresh model: %d" % (what, m.iteration_, f.iteration_))
    if not isinstance(want, str):
        close(got, want, what, 1e-12, 1e-13)
        close(m.insample_loss_, f.insample_loss_, what + ": loss", 1e-12, 1e-13)
    rec.outcome("diverging cycles: %s%s" % (getattr(f, "diverging", None), ", given up" if isinstance(want, str) else ""))
    rec.trace()
    rec.state(case["kind"], case["agg"], case["final"], case["seq"][-1])


def params(m):
    out = {}
    for k, v in m.get_params(deep=False).items():
        if k == "smoother_choice":
            out[k] = sorted((a, repr(b) if not hasattr(b, "__dict__") else sorted(vars(b))) for a, b in vars(v).items()) if v is not None else None
            if v is not None and getattr(v, "explicit_smoothers", None):
                out["explicit"] = [(repr(a), sorted(vars(s))) for a, s in v.explicit_smoothers.items()]
        else:
            out[k] = v
    return out


def share_cases(tier):
    """Two estimators sharing properties, groups, smoother choice, observers and data."""
    out = []
    for k1, k2 in itertools.product(REGS, REGS):
        for order in itertools.permutations(["1A", "2B", "1C", "2A"], 3):
            if tier == "quick" and (len(out) % 3 != 1):
                out.append(None)
                continue
            out.append({"k1": k1, "k2": k2, "order": list(order)})
    return [c for c in out if c]


def check_share(case, rec):
    from cyclic_boosting.smoothing.onedim import WeightedMeanSmoother

    props = {"a": C | HM, "b": U | HM}
    groups = ["a", ("a", "b")]

    def pair(shared):
        def sc():
            return cs.SmootherChoiceWeightedMean(explicit_smoothers={("a",): WeightedMeanSmoother()})

        s1 = sc()
        s2 = s1 if shared else sc()
        p1 = props if shared else copy.deepcopy(props)
        p2 = props if shared else copy.deepcopy(props)
        g1 = groups if shared else list(groups)
        g2 = groups if shared else list(groups)
        return [make(case["k1"], g1, p1, maximal_iterations=2, smoother_choice=s1), make(case["k2"], g2, p2, maximal_iterations=2, smoother_choice=s2)]

    a, b = pair(True), pair(False)
    b0 = snapshot([props, groups])
    for o in case["order"]:
        i = int(o[0]) - 1
        kind = (case["k1"], case["k2"])[i]
        a[i].fit(*data(kind, o[1]))
        b[i].fit(*data(kind, o[1]))
        rec.op(2)
    ensure(snapshot([props, groups]) == b0, "shared arguments changed")
    for i, kind in enumerate((case["k1"], case["k2"])):
        if any(o[0] == str(i + 1) for o in case["order"]):
            same(report(kind, a[i]), report(kind, b[i]), "estimator %d of two sharing their arguments, order %s" % (i + 1, case["order"]))
    rec.trace()
    rec.state(case["k1"], case["k2"], case["order"])


def other_cases(tier):
    out = []
    for obj in ("bins", "bins_w", "ecdf", "pipe_poisson", "pipe_location", "pipe_classifier"):
        for d in (1, 2, 3):
            for seq in itertools.product(["fitA", "fitB", "fitC", "empty", "use", "ft"], repeat=d):
                if obj.startswith("pipe") and d == 3 and tier == "quick" and len(out) % 3:
                    out.append(None)
                    continue
                for final in "AB":
                    out.append({"obj": obj, "seq": list(seq), "final": final})
    for seq in itertools.product(["fitA", "fitB", "use"], repeat=2):
        out.append({"obj": "chain", "seq": list(seq), "final": "A"})
    return [c for c in out if c]


def raw_data(name):
    v = {"A": [0.1, 3.0, 2.0, 0.5, 5.0, 2.0], "B": [10.0, -1.0, NAN, 4.0, 4.5, 7.0, 8.0, 9.0], "C": [1.0, 1.0, NAN]}[name]
    X = pd.DataFrame({"x": v, "z": [float(i % 3) for i in range(len(v))]})
    y = np.array([float((i * 7) % 4) for i in range(len(v))])
    return X, y


def other_new(obj):
    if obj == "bins":
        return BinNumberTransformer(n_bins=3, feature_properties={"x": C | HM, "z": U})
    if obj == "bins_w":
        return BinNumberTransformer(n_bins={"x": 2, "z": 4}, weight_column=None)
    if obj == "ecdf":
        return ECdfTransformer(n_bins=2)
    if obj == "chain":
        mk = lambda: make("aquant", ["a"], {"a": U}, maximal_iterations=2)
        return QPD_RegressorChain(mk(), mk(), mk(), "S")
    kw = dict(feature_groups=["x", ("x", "z")], feature_properties={"x": C | HM, "z": U}, maximal_iterations=2, number_of_bins=3)
    return {"pipe_poisson": pipelines.pipeline_CBPoissonRegressor, "pipe_location": pipelines.pipeline_CBLocationRegressor, "pipe_classifier": pipelines.pipeline_CBClassifier}[obj](**kw)


def chain_data(name):
    n = 8
    X = frame({"a": [i % 2 for i in range(n)]} if name == "A" else {"a": [i % 3 for i in range(n)]})
    y = np.array([1.0, 2.0, 3.0, 4.5, 2.5, 6.0, 1.5, 3.5]) if name == "A" else np.array([2.0, 9.0, 4.0, 1.0, 7.0, 3.0, 8.0, 5.0])
    return X, y


def other_fit(obj, o, name):
    if obj == "chain":
        return o.fit(*chain_data("A" if name == "A" else "B"))
    X, y = raw_data(name)
    if obj == "pipe_classifier":
        y = (y > 1).astype(float)
    return o.fit(X, y)


def other_use(obj, o):
    if obj == "chain":
        l, m, h, _ = o.predict(frame({"a": [0.0, 1.0, 2.0, -1.0]}))
        return np.c_[l, m, h]
    Q = pd.DataFrame({"x": [0.0, 0.1, 1.0, 2.5, 4.2, 5.0, 10.0, 30.0, -5.0, NAN], "z": [0.0, 1.0, 2.0, 3.0, NAN, 0.0, 1.0, 2.0, 0.0, 1.0]})
    if obj.startswith("pipe"):
        return o.predict_proba(Q) if obj.endswith("classifier") else o.predict(Q)
    return np.asarray(o.transform(Q), dtype=float)


def check_other(case, rec):
    obj = case["obj"]
    o = other_new(obj)
    for op in case["seq"]:
        if op.startswith("fit"):
            other_fit(obj, o, op[-1])
        elif op == "empty":
            X, y = raw_data("A")
            raises(lambda: o.fit(X.iloc[:0], y[:0]))
        elif op == "use":
            raises(lambda: other_use(obj, o))
        elif op == "ft":
            X, y = raw_data("B")
            raises(lambda: o.fit_transform(X, y))
        rec.op()
    other_fit(obj, o, case["final"])
    f = other_fit(obj, other_new(obj), case["final"])
    rec.op(2)
    got, want = other_use(obj, o), other_use(obj, f)
    close(got, want, "%s after %s and fit%s" % (obj, case["seq"], case["final"]), 1e-12, 1e-13)
    rec.trace()
    rec.state(obj, case["final"], got)


ALTERNATIVES = {
    "feature_groups": [["a"], [("a", "b")], ["b", ("b", "a")], None],
    "feature_properties": [{"a": U, "b": U}, {"a": C | HM, "b": O}],
    "weight_column": ["w"],
    "prior_prediction_column": ["p"],
    "maximal_iterations": [1, 6],
    "minimal_loss_change": [0.5],
    "minimal_factor_change": [10.0],
    "learn_rate": [lr.constant_learn_rate_one, lr.linear_learn_rate],
    "smoother_choice": ["groupby"],
    "aggregate": [False],
    "hierarchical_feature_groups": [["a"], [("a", "b")]],
    "training_iterations_hierarchical_features": [1],
    "quantile": [0.3],
    "a": [2.0],
    "c": [0.5],
    "costs": [costs_abs],
    "var_prior_exponent": [1.0],
    "standard_feature_groups": [["b"], ["a", "b"]],
    "external_feature_groups": [["a"], [("a", "b")]],
    "external_colname": ["w"],
    "prior_exponent_colname": ["e"],
    "bayes": [True],
    "n_steps": [5],
}


def param_cases(tier):
    out = []
    for kind in REGS + GENERIC + ["expo", "nbinomc"]:
        known = build(kind, "plain").get_params(deep=False)
        for cfg in ("plain", "hier"):
            if cfg == "hier" and kind in ("expo", "nbinomc") or kind in GENERIC and tier == "quick" and cfg == "hier":
                continue
            for name in sorted(ALTERNATIVES):
                if name not in known:
                    continue
                if kind == "gbs" and name == "prior_prediction_column" or kind == "expo" and name == "feature_groups" or kind == "nbinomc" and name == "weight_column":
                    continue
                for i in range(len(ALTERNATIVES[name])):
                    for first in ("nothing", "clone", "A", "B"):
                        if tier == "quick" and kind in GENERIC and first in ("clone", "A"):
                            continue
                        out.append({"obj": kind, "cfg": cfg, "name": name, "value": i, "first": first})
    for obj, alts in OTHER_ALTERNATIVES.items():
        for i in range(len(alts)):
            for first in ("nothing", "A", "B"):
                out.append({"obj": obj, "cfg": "", "name": alts[i][0], "value": i, "first": first})
    return out


OTHER_ALTERNATIVES = {
    "bins": [("n_bins", 2), ("n_bins", {"x": 4, "z": 2}), ("feature_properties", {"x": U, "z": C}), ("tolerance", 0.5), ("feature_properties", {"x": C | HM})],
    "ecdf": [("n_bins", 5), ("feature_properties", {"x": C, "z": C}), ("weight_column", "z")],
    "chain": [("alpha", 0.1), ("l", -1.0), ("bound", "B+")],
    "pipe_poisson": [("CB__maximal_iterations", 5), ("CB__feature_groups", ["z"]), ("binning__n_bins", 2), ("CB__hierarchical_feature_groups", ["z"])],
    "pipe_location": [("CB__learn_rate", lr.constant_learn_rate_one), ("binning__n_bins", 5)],
    "pipe_classifier": [("CB__maximal_iterations", 5), ("CB__weight_column", "z")],
}


def other_with(obj, i):
    """A new object that got the alternative through its constructor."""
    o = other_new(obj)
    name, value = OTHER_ALTERNATIVES[obj][i]
    if obj == "chain":
        p = {k: v for k, v in o.get_params(deep=False).items()}
        p.update({"bound": "B", "u": 50.0} if value == "B+" else {name: value})
        return type(o)(**p)
    if obj.startswith("pipe"):
        step, name = name.split("__")
        for k, (n, e) in enumerate(o.steps):
            if n == step:
                p = dict(e.get_params(deep=False))
                p[name] = value
                o.steps[k] = (n, type(e)(**p))
        return o
    p = dict(o.get_params(deep=False))
    p[name] = value
    return type(o)(**p)


def param_data(kind, name):
    X, y = data(kind, name)
    X["e"] = -0.5 - 0.25 * (np.arange(len(X)) % 3)
    return X, y


def param_value(case):
    v = ALTERNATIVES[case["name"]][case["value"]]
    return cs.SmootherChoiceGroupBy() if v == "groupby" else v


def param_report(kind, m):
    Q = query(kind)
    Q["e"] = -0.5
    return {"predictions": raw_predict(kind, m, Q), "loss": float(m.insample_loss_), "iterations": int(m.iteration_), "stop": tuple(bool(b) for b in m.stop_criteria_), "base": float(m.global_scale_link_)}


def check_params(case, rec):
    """Parameters changed between construction and training are the ones that count."""
    obj, name, first = case["obj"], case["name"], case["first"]
    what = "%s: %s set after %s" % (obj, name, {"nothing": "construction", "clone": "cloning"}.get(first, "a training"))
    if obj in OTHER_ALTERNATIVES:
        o = other_new(obj)
        if first in DATA:
            other_fit(obj, o, first)
        value = OTHER_ALTERNATIVES[obj][case["value"]][1]
        o.set_params(**({"bound": "B", "u": 50.0} if value == "B+" else {name: value}))
        f = other_with(obj, case["value"])
        other_fit(obj, o, "B")
        other_fit(obj, f, "B")
        got, want = other_use(obj, o), other_use(obj, f)
        close(got, want, what, 1e-12, 1e-13)
        rec.op(3)
        rec.trace()
        rec.state(obj, name, case["value"], got)
        return
    m = build(obj, case["cfg"])
    p = dict(m.get_params(deep=False))
    if first == "clone":
        m = clone(m)
    elif first in DATA:
        m.fit(*param_data(obj, first))
    m.set_params(**{name: param_value(case)})
    p[name] = param_value(case)
    f = type(m)(**p)
    X, y = param_data(obj, "B")
    m.fit(X.copy(), y)
    f.fit(X.copy(), y)
    rec.op(3)
    got = param_report(obj, m)
    same(got, param_report(obj, f), what + ", trained again, against a new object with this setting")
    rec.trace()
    rec.state(obj, case["cfg"], name, case["value"], got["predictions"])


def table_cases(tier):
    """The same table and target objects, changed in place between trainings."""
    out = []
    for kind in REGS + GENERIC + ["expo", "nbinomc", "bins", "ecdf", "pipe_poisson"]:
        for d in (1, 2) if tier == "quick" and kind in GENERIC else (1, 2, 3):
            for seq in itertools.product(("column", "row", "target", "use"), repeat=d):
                out.append({"kind": kind, "seq": list(seq)})
    return out


def check_table(case, rec):
    kind = case["kind"]
    other = kind in ("bins", "ecdf", "pipe_poisson")
    X, y = raw_data("B") if other else data(kind, "B")
    new = (lambda: other_new(kind)) if other else (lambda: build(kind, "opts"))
    use = (lambda o: other_use(kind, o)) if other else (lambda o: raw_predict(kind, o, query(kind)))
    m = new().fit(X, y)
    rec.op()
    for step, op in enumerate(case["seq"]):
        if op == "column":
            X.iloc[:, 1] = np.roll(X.iloc[:, 1].values, 1)
        elif op == "row":
            X.iloc[step] = X.iloc[step + 2].values
        elif op == "target":
            y[:] = y[::-1].copy()
        else:
            use(m)
            continue
        m.fit(X, y)
        rec.op()
    f = new().fit(X.copy(), y.copy())
    got, want = use(m), use(f)
    close(got, want, "%s trained again on the same table after %s" % (kind, case["seq"]), 1e-12, 1e-13)
    rec.op(2)
    rec.trace()
    rec.state(kind, got)


def spaces(tier):
    return [
        Space("estimators", lambda: seq_cases(tier), check_seq, "results of a model trained in a process of its own against all sequences of 8 operations up to depth 2 (every second of depth 2 in quick, every fourth of depth 3 in thorough; all of depth 3 for Poisson) before the final fit, 13 estimators x up to 6 configurations", warm=warm_fresh(seq_cases(tier))),
        Space("diverging", lambda: diverge_cases(tier), check_diverging, "4 estimators, with and without aggregation, all sequences of up to 2 (Poisson 3, thorough 5) trainings of 4 kinds, of which two diverge, before the final one", warm=warm_basic),
        Space("sharing", lambda: share_cases(tier), check_share, "pairs of 6 estimators sharing properties, groups and smoother choice; ordered selections of 3 of 4 fits"),
        Space("others", lambda: other_cases(tier), check_other, "binners, 3 pipelines and the distribution chain; all sequences of 6 operations up to depth 3 before the final fit"),
        Space("parameters", lambda: param_cases(tier), check_params, "every setting of 13 estimators (two configurations), binners, pipelines and the chain changed after construction, cloning or a training, against a new object with the setting"),
        Space("same-table", lambda: table_cases(tier), check_table, "all sequences of up to 3 in-place changes of the training table or target with a training after each, 13 estimators, binners and a pipeline"),
    ]
