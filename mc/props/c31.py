"""C31: concurrent use of a fitted object gives sequential results.

Two real threads use the same object under a scheduler that enumerates the
interleavings of their source lines up to a preemption bound.
"""
import copy
import functools
import logging
import pickle
import warnings

import numpy as np
import pandas as pd

from cyclic_boosting import binning, common_smoothers, flags, pipelines
from cyclic_boosting.observers import PlottingObserver
from mc import est, sched
from mc.core import ensure, fail
from mc.est import C, HM, U
from mc.run import Space

ASSUMPTIONS = [
    "Calls into numpy, pandas and compiled kernels are atomic; threads are preempted between source lines of the library.",
    "Two threads; preemption bound one over all line positions, bound two around lines that change the shared object (all distinct lines in the thorough tier).",
]
NAN = float("nan")
SLICES = 8


def same(got, want):
    """Exactly the same values (missing ones included)."""
    if isinstance(want, dict):
        return isinstance(got, dict) and list(got) == list(want) and all(same(got[k], want[k]) for k in want)
    return isinstance(got, np.ndarray) and got.shape == want.shape and np.allclose(got, want, rtol=1e-12, atol=1e-13, equal_nan=True)


def silence():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


def table(which, kind):
    """Two tables with the same shape and different contents everywhere."""
    d = {
        "x": {"a": [0.0, 1.0, 2.0, 0.0, 1.0, NAN], "b": [0.0, 1.0, 0.0, 1.0, 1.0, 0.0], "price": [0.5, 0.9, 1.0, 0.7, 0.6, 0.8], "prior": [1.0, 2.0, 3.0, 1.5, 2.5, 0.5], "pe": [-1.0, -0.5, -0.2, -1.5, -0.7, -0.9], "w": [1.0, 2.0, 1.0, 3.0, 1.0, 1.0], "mu": [1.0, 2.0, 3.0, 2.0, 1.0, 2.5]},
        "y": {"a": [2.0, 0.0, NAN, 1.0, 0.0, 1.0], "b": [1.0, 0.0, 1.0, 0.0, NAN, 1.0], "price": [0.95, 0.55, 0.65, 0.85, 0.75, 1.0], "prior": [2.2, 0.7, 1.4, 3.3, 0.9, 1.8], "pe": [-0.3, -1.1, -0.8, -0.4, -1.3, -0.1], "w": [2.0, 1.0, 4.0, 1.0, 2.0, 0.5], "mu": [2.5, 1.0, 2.0, 3.0, 2.0, 1.5]},
        "z": {"a": [1.0, 2.0, 0.0, 5.0], "b": [0.0, 0.0, 1.0, 1.0], "price": [0.6, 1.0, 0.7, 0.9], "prior": [0.6, 2.8, 1.1, 1.7], "pe": [-0.6, -0.2, -1.2, -1.0], "w": [1.0, 1.0, 2.0, 2.0], "mu": [1.2, 2.2, 3.2, 0.8]},
    }[which]
    X = pd.DataFrame(d)
    if kind in ("classifier", "gclf", "nbinomc"):
        X["prior"] = X["prior"] / 5
    return X


def target(which, kind):
    y = {"x": [2.0, 3.0, 1.0, 5.0, 0.0, 4.0], "y": [1.0, 0.0, 4.0, 2.0, 6.0, 1.0]}[which]
    if kind in ("classifier", "gclf"):
        return np.array([float(v > 2) for v in y])
    return np.array(y)


def model(kind, **kw):
    kw.setdefault("maximal_iterations", 3)
    if kind == "expo":
        return est.make(kind, ["a", ["a", "b"]], {"a": C | HM, "b": U}, external=["b"], prior_exponent_colname="pe", weight_column="w", **kw)
    if kind not in ("gbs",):
        kw["prior_prediction_column"] = "prior"
    kw["weight_column"] = "w"
    return est.make(kind, ["a", "b", ["a", "b"]], {"a": C | HM, "b": U}, **kw)


RAW = {
    "x": {"a": [3.0, 1.0, 2.0, 3.0, NAN, 1.0], "b": [0.1, 0.7, 0.3, 2.5, 9.0, 1.1]},
    "y": {"a": [1.0, 7.0, 3.0, 2.0, 2.0, 3.0], "b": [2.0, NAN, 0.2, 0.9, 4.0, 0.5]},
    "z": {"a": [2.0, 2.0, 1.0, 3.0], "b": [0.6, 5.0, 11.0, -3.0]},
}

# columns of which only the second takes -9 and -999 for missing
MAGIC = {
    "x": {"a": [-9.0, 1.0, 2.0, 3.0, -999.0, 1.0], "b": [0.1, -9.0, 0.3, 2.5, 9.0, -999.0]},
    "y": {"a": [1.0, -9.0, -999.0, 2.0, 2.0, 3.0], "b": [-9.0, 0.7, 0.2, -999.0, 4.0, 0.5]},
    "z": {"a": [-9.0, 2.0, 1.0, -9.0], "b": [0.6, -9.0, 11.0, -9.0]},
}


def raw(thing, which):
    return pd.DataFrame((MAGIC if "magic" in thing else RAW)[which])


@functools.lru_cache(None)
def fitted(thing):
    silence()
    if "magic" in thing:
        cls = binning.BinNumberTransformer if thing == "bin magic number" else binning.ECdfTransformer
        return cls(n_bins=3, feature_properties={"a": C | HM, "b": C | flags.HAS_MAGIC_INT_MISSING}).fit(raw(thing, "x"))
    if thing in ("bin number", "bin cdf"):
        cls = binning.BinNumberTransformer if thing == "bin number" else binning.ECdfTransformer
        return cls(n_bins=3, feature_properties={"a": U | HM, "b": C | HM}).fit(pd.DataFrame(RAW["x"]))
    if thing == "bin array":
        return binning.BinNumberTransformer(n_bins=3).fit(pd.DataFrame(RAW["x"]).values)
    if thing == "pipeline":
        p = pipelines.pipeline_CBPoissonRegressor(feature_groups=["a", "b", ("a", "b")], feature_properties={"a": U | HM, "b": C | HM}, maximal_iterations=3, number_of_bins=3)
        return p.fit(pd.DataFrame(RAW["x"]), target("x", "poisson"))
    if thing == "grouped":
        m = model("poisson", smoother_choice=common_smoothers.SmootherChoiceGroupBy(use_regression_type=False))
        return m.fit(table("x", "poisson"), target("x", "poisson"))
    return model(thing).fit(table("x", thing), target("x", thing))


def values(r):
    if isinstance(r, pd.DataFrame):
        return {c: r[c].values.copy() for c in r.columns}
    if isinstance(r, dict):
        return {k: np.asarray(v).copy() for k, v in r.items()}
    return np.asarray(r).copy()


def call(op, obj, which, thing):
    """A closure performing one caller's request on the shared object."""
    if thing.startswith("bin") or thing == "pipeline":
        Q = raw(thing, which)
    else:
        Q = table(which, thing)
    if op == "predict":
        return lambda: values(obj.predict(Q))
    if op == "probabilities":
        return lambda: values(obj.predict_proba(Q))
    if op == "contributions":
        return lambda: values(obj.get_feature_contributions(Q))
    if op == "categories":
        return lambda: values(obj.predict_extended(Q, {("a",): "one", ("b",): "one", ("a", "b"): "two"}).df)
    if op == "transform":
        return lambda: values(obj.transform(Q))
    raise ValueError(op)


def ops_of(thing):
    if thing.startswith("bin"):
        return ["transform"]
    if thing == "pipeline":
        return ["predict"]
    if thing in ("classifier",):
        return ["predict", "probabilities", "contributions"]
    if thing in ("poisson", "grouped"):
        return ["predict", "contributions", "categories"]
    return ["predict", "contributions"]


QUICK = ["poisson", "location", "classifier", "gbs", "expo", "nbinomc", "mquant", "locpoisson", "grouped", "pipeline", "bin number", "bin cdf", "bin array", "bin magic number", "bin magic cdf"]
MORE = ["nbinom", "aquant", "mgen", "agen", "gclf"]


def cases_shared(tier):
    out = []
    for thing in QUICK + (MORE if tier == "thorough" else []):
        ops = ops_of(thing)
        pairs = [(o, "x", p, "y") for o in ops for p in ops] if tier == "thorough" else [(o, "x", o, "y") for o in ops] + [(ops[0], "x", ops[-1], "y")] * (len(ops) > 1)
        pairs += [(ops[0], "x", ops[0], "z")]
        for o, q, p, r in pairs:
            if thing == "bin array" and r == "z" and tier == "quick":
                continue
            for s in range(SLICES if tier == "thorough" else 2):
                out.append({"on": thing, "first": [o, q], "second": [p, r], "slice": s, "of": SLICES if tier == "thorough" else 2})
    return out


def check_shared(case, rec):
    silence()
    thing = case["on"]
    base = fitted(thing)
    frames = thing != "bin array"

    def fns(obj):
        fs = [call(case["first"][0], obj, case["first"][1], thing), call(case["second"][0], obj, case["second"][1], thing)]
        if not frames:
            fs = [lambda w=w: values(obj.transform(pd.DataFrame(RAW[w]).values)) for w in (case["first"][1], case["second"][1])]
        return fs

    alone = [f() for f in fns(copy.deepcopy(base))]
    again = [f() for f in fns(copy.deepcopy(base))[::-1]][::-1]
    tag = "%s: %s on %s beside %s on %s" % (thing, *case["first"], *case["second"])
    for i in range(2):
        ensure(same(alone[i], again[i]), lambda: tag + ": results depend on the order of the calls")

    # a first run of each caller alone finds its lines and the lines at which the shared object changes
    writes = [[], []]
    lines = [[], []]
    for t in range(2):
        obj = copy.deepcopy(base)
        last = [pickle.dumps(obj)]

        def watch(me, frame):
            now = pickle.dumps(obj)
            if now != last[0]:
                writes[t].append(len(run.lines[me]))
                last[0] = now

        f = fns(obj)[t]
        run = sched.Run([f], [(0, 10**9)], watch if case["slice"] == 0 else None)
        run.go()
        if run.error[0] is not None:
            raise run.error[0]
        lines[t] = run.lines[0]
    n = [len(l) for l in lines]
    ensure(n[0] > 0 and n[1] > 0, lambda: tag + ": no line of the library is executed")

    plans = []
    for a, b in ((0, 1), (1, 0)):
        plans += [[(a, k), (b, 10**9), (a, 10**9)] for k in sched.points(lines[a], True)]
    plans = plans[case["slice"] :: case["of"]]
    if case["slice"] == 0:
        near = [sorted({k + d for k in w for d in (-1, 0, 1, 2) if 0 < k + d <= m}) for w, m in zip(writes, n)]
        near = [p[:40] for p in near]
        plans += [[(a, k), (b, j), (a, 10**9), (b, 10**9)] for a, b in ((0, 1), (1, 0)) for k in near[a] for j in near[b]]
    if case["of"] > 2:  # thorough: two preemptions at the first execution of every distinct line
        two = [[(a, k), (b, j), (a, 10**9), (b, 10**9)] for a, b in ((0, 1), (1, 0)) for k in sched.points(lines[a], False, 1) for j in sched.points(lines[b], False, 1)]
        plans += two[case["slice"] :: case["of"] * max(1, len(two) // 4000)]
    for plan in plans:
        obj = copy.deepcopy(base)
        run = sched.Run(fns(obj), plan).go()
        rec.op(len(run.lines[0]) + len(run.lines[1]))
        rec.trace()
        at = plan[0][1]
        where = lines[plan[0][0]][min(at, n[plan[0][0]]) - 1]
        rec.state(thing, case["first"], case["second"], plan[0][0], at, plan[1])
        for t in range(2):
            at_line = "caller %d preempted before line %d of %s" % (plan[0][0], where[1], where[0][len(sched.ROOT) :])
            if run.error[t] is not None:
                fail("%s: caller %d gets %s: %s (%s)" % (tag, t, type(run.error[t]).__name__, run.error[t], at_line))
            ensure(same(run.result[t], alone[t]), lambda: "%s: caller %d gets %s, alone %s (%s)" % (tag, t, run.result[t], alone[t], at_line))
        ensure(same(fns(obj)[0](), alone[0]), lambda: "%s: later results differ" % tag)
    rec.outcome(thing)


def cases_training(tier):
    """Pairs of models; quick takes the first execution of every distinct line of the first one."""
    pairs = [("poisson", "poisson", False), ("location", "poisson", True), ("expo", "expo", False), ("classifier", "predict", True)]
    if tier == "thorough":
        kinds = ["poisson", "location", "classifier", "gbs", "expo", "locpoisson", "nbinomc", "nbinom"]
        pairs += [(a, b, s) for a in kinds for b in [a, kinds[(kinds.index(a) + 1) % len(kinds)], "predict"] for s in (False, True) if (a, b, s) not in pairs]
    slices = 8 if tier == "quick" else 16
    return [{"first": a, "second": b, "shared table": s, "slice": i, "of": slices} for a, b, s in pairs for i in range(slices)]


def check_training(case, rec):
    """Independent models trained at the same time, also from the same table."""
    silence()
    ka, kb = case["first"], case["second"]
    full = case["of"] > 8
    scorer = fitted("poisson") if kb == "predict" else None

    def fns():
        Xa = table("x", ka)
        Xb = Xa if case["shared table"] else table("y", kb)
        ya, yb = target("x", ka), target("y", kb)
        P = table("z", ka)

        def train(k, X, y):
            obs = [PlottingObserver(iteration=-1)]
            m = model(k, maximal_iterations=2 if full else 1, observers=obs).fit(X, y)
            return {"predictions": values(m.predict(P)), "cycles": np.array(m.iteration_), "stop": np.array(m.stop_criteria_), "observed": np.array(m.observers[0].loss)}

        fs = [lambda: train(ka, Xa, ya)]
        fs.append((lambda: {"predictions": values(scorer.predict(Xb))}) if kb == "predict" else (lambda: train(kb, Xb, yb)))
        return fs

    alone = [f() for f in fns()]
    tag = "training %s beside %s%s" % (ka, kb, " on the same table" if case["shared table"] else "")
    run = sched.Run(fns(), [(0, 10**9), (1, 10**9)]).go()
    lines = run.lines
    plans = []
    for a, b in ((0, 1), (1, 0))[: 2 if full else 1]:
        ks = sched.points(lines[a], False, 1, full)
        plans += [[(a, k), (b, 10**9), (a, 10**9)] for k in ks]
    plans = plans[case["slice"] :: case["of"]]
    for plan in plans:
        run = sched.Run(fns(), plan).go()
        rec.op(len(run.lines[0]) + len(run.lines[1]))
        rec.trace()
        rec.state(ka, kb, case["shared table"], plan[0])
        where = lines[plan[0][0]][min(plan[0][1], len(lines[plan[0][0]])) - 1]
        for t in range(2):
            at_line = "model %d preempted before line %d of %s" % (plan[0][0], where[1], where[0][len(sched.ROOT) :])
            if run.error[t] is not None:
                fail("%s: model %d: %s: %s (%s)" % (tag, t, type(run.error[t]).__name__, run.error[t], at_line))
            ensure(same(run.result[t], alone[t]), lambda: "%s: model %d gives %s, alone %s (%s)" % (tag, t, run.result[t], alone[t], at_line))
    rec.outcome("%s/%s" % (ka, kb))


def spaces(tier):
    return [
        Space("shared", lambda: cases_shared(tier), check_shared, "two callers of one fitted object: every preemption of either caller at every executed library line, two preemptions around lines that change the object", warm=est.warm_basic, warm_in_child=True, chunk=1),
        Space("training", lambda: cases_training(tier), check_training, "two models trained side by side, from own and from the same table: preemption at the first and last execution of every distinct library line", warm=est.warm_basic, warm_in_child=True, chunk=1),
    ]
