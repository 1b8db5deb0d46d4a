"""C05: in-sample prediction of training = prediction of the fitted model."""
import itertools

import numpy as np

from cyclic_boosting import flags, learning_rate
from cyclic_boosting.common_smoothers import NoSmootherChoice, SmootherChoiceGroupBy, SmootherChoiceWeightedMean
from cyclic_boosting.utils import ConvergenceError
from mc.core import close, ensure
from mc.est import C, GENERIC, HM, MNL, O, REGS, U, make, raw_predict, warm_basic
from mc.run import Space
from mc.tables import PROPS, STRUCTS, build, query, tables, thin

ASSUMPTIONS = [
    "classifier: compared on the probability scale; location-Poisson: after the documented cut at zero",
    "observers are given read-only use of the training state",
]
LR = {
    "default": None,
    "one": learning_rate.constant_learn_rate_one,
    "linear": learning_rate.linear_learn_rate,
    "logistic": learning_rate.logistic_learn_rate,
}
SC = {"wm": SmootherChoiceWeightedMean, "no": NoSmootherChoice, "gb": SmootherChoiceGroupBy}
FLAGSETS = {
    "u": U, "o": O, "c": C, "lin": flags.IS_LINEAR, "mono": flags.IS_MONOTONIC,
    "inc": flags.IS_MONOTONIC | flags.INCREASING, "dec": flags.IS_MONOTONIC | flags.DECREASING,
    "mnl": U | MNL, "hm": C | HM, "onl": O | MNL,
}


class Last:
    def __init__(self):
        self.pred = None
        self.n = 0

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, *more):
        self.n += 1
        if iteration == -1:
            self.pred = np.array(prediction, dtype=float)

    def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state, *more):
        self.n += 1


def fix(kind, p):
    return np.maximum(p, 0.0) if kind == "locpoisson" else p


def run(kind, groups, props, X, y, rec, external=None, **kw):
    obs = Last()
    ok = True
    e = make(kind, groups, props, external=external, observers=[obs], **kw)
    try:
        e.fit(X, y)
    except ConvergenceError:
        rec.outcome("diverged")
        return
    rec.op()
    ensure(obs.pred is not None, "no final observer call")
    p = raw_predict(kind, e, X)
    rec.op()
    close(p, fix(kind, obs.pred), "%s: prediction for the training rows against the final in-sample prediction" % kind, 1e-7, 1e-9)
    # the same training without observers through fit_transform
    e2 = make(kind, groups, props, external=external, output_column="out", **kw)
    X2 = X.copy()
    r = e2.fit_transform(X2, y)
    rec.op()
    close(fix(kind, r["out"].values), p, "%s: fit_transform against the fitted model" % kind, 1e-7, 1e-9)
    close(raw_predict(kind, e2, X), p, "%s: model of fit_transform" % kind, 1e-9, 1e-10)
    X3 = X.copy()
    t = e2.transform(X3)["out"].values
    close(t, e2.predict(X), "%s: transform against predict" % kind, 1e-12, 0)
    rec.op(2)
    rec.outcome("iterations=%d%s" % (e.iteration_, ",diverging %d" % e.diverging if e.diverging else ""))
    rec.trace(2)
    rec.state(p)


def cfg_cases(tier):
    """All combinations of iteration count, learning rate, smoother choice, aggregation."""
    ts = thin(list(tables(4)), 180 if tier == "quick" else 40)
    out = []
    for kind, it, lr, sc, agg in itertools.product(REGS, (1, 2, 5), LR, SC, (True, False)):
        for sname in ("2x1d", "mixed"):
            for i, t in enumerate(ts):
                if tier == "quick" and (i + it + len(lr) + (sname == "mixed")) % 4:
                    continue
                out.append({"kind": kind, "it": it, "lr": lr, "sc": sc, "agg": agg, "struct": sname, "t": t, "props": "ucom"[i % 4]})
    return out


def check_cfg(case, rec):
    X, y = build(case["kind"], case["t"])
    run(case["kind"], STRUCTS[case["struct"]], PROPS[case["props"]], X, y, rec, maximal_iterations=case["it"],
        learn_rate=LR[case["lr"]], smoother_choice=SC[case["sc"]](), aggregate=case["agg"],
        minimal_loss_change=1e-9, minimal_factor_change=1e-9)


def flag_cases(tier):
    ts = thin(list(tables(4)), 60 if tier == "quick" else 12)
    out = []
    for kind in REGS:
        for fa, fb in itertools.product(FLAGSETS, ("u", "c", "mnl")):
            for i, t in enumerate(ts):
                if tier == "quick" and (i + len(fa) + len(fb)) % 3:
                    continue
                out.append({"kind": kind, "fa": fa, "fb": fb, "t": t})
    return out


def check_flag(case, rec):
    X, y = build(case["kind"], case["t"])
    run(case["kind"], ["a", "b", ["b", "a"]], {"a": FLAGSETS[case["fa"]], "b": FLAGSETS[case["fb"]]}, X, y, rec, maximal_iterations=3)


def table_cases(tier):
    ts = list(tables(3)) + list(tables(4))
    k = 5 if tier == "quick" else 1
    out = []
    for i, kind in enumerate(REGS):
        out += [{"kind": kind, "t": t, "mis": [1, 4][j % 2]} for j, t in enumerate(thin(ts, k, i))]
    for i, kind in enumerate(["expo", "nbinomc"]):
        out += [{"kind": kind, "t": t, "mis": 3} for t in thin(ts, 4 * k, i)]
    for i, kind in enumerate(GENERIC):
        out += [{"kind": kind, "t": t, "mis": 2} for t in thin(ts, 80 if tier == "quick" else 20, i)]
    return out


def check_table(case, rec):
    kind = case["kind"]
    X, y = build(kind, case["t"])
    groups = ["a", "b"] if kind in ("expo", "nbinomc") else (["a"] if kind in GENERIC else ["a", ["a", "b"]])
    run(kind, groups, PROPS["u"], X, y, rec, external=["b"] if kind == "expo" else None, maximal_iterations=case["mis"])


def stop_cases(tier):
    """Stopping reasons: each criterion decides for some limit, also with hierarchical groups and extreme targets."""
    out = []
    ts = thin(list(tables(4)), 120 if tier == "quick" else 30)
    for kind in REGS:
        for mfc, mlc in ((1e-9, 0.5), (0.5, 1e-9), (1e-2, 1e-3), (1e-12, 1e-12)):
            for hier in (None, ["b"]):
                for t in ts:
                    out.append({"kind": kind, "mfc": mfc, "mlc": mlc, "hier": hier, "t": t, "scale": 1.0})
    for t in ts:
        for sc in (1e-6, 1e4):
            for kind in ("poisson", "nbinom", "location", "gbs"):
                out.append({"kind": kind, "mfc": 1e-9, "mlc": 1e-9, "hier": None, "t": t, "scale": sc})
    return out


def check_stop(case, rec):
    kind = case["kind"]
    X, y = build(kind, case["t"])
    kw = {}
    if case["hier"]:
        kw["hierarchical_feature_groups"] = case["hier"]
    run(kind, ["a", "b", ["a", "b"]], PROPS["u"], X, y * case["scale"], rec, maximal_iterations=8,
        minimal_factor_change=case["mfc"], minimal_loss_change=case["mlc"], **kw)


def diverge_cases(tier):
    """A prior that already fits makes the first cycles diverge."""
    ts = thin(list(tables(4)), 24 if tier == "quick" else 6)
    out = [{"kind": k, "t": t, "eps": e, "agg": agg, "props": "uc"[i % 2]}
           for k in ("poisson", "nbinom", "location", "classifier", "locpoisson")
           for e in (0.0, 0.05, 0.2) for agg in (True, False) for i, t in enumerate(ts)]
    out += [{"kind": k, "t": t, "eps": 0.0, "agg": True, "props": "u", "hier": True} for k in ("poisson", "nbinom", "location") for t in ts]
    return out


def check_diverge(case, rec):
    kind = case["kind"]
    X, y = build(kind, case["t"])
    if kind == "classifier":
        X["p"] = np.where(y > 0, 0.99, 0.01)
    else:
        y = y + 1.0
        X["p"] = y * (1.0 + case["eps"] * np.array([1, -1, 1, -1, 1, -1])[: len(y)])
    kw = {"hierarchical_feature_groups": ["b"]} if case.get("hier") else {}
    run(kind, ["a", "b", ["a", "b"]], PROPS[case["props"]], X, y, rec, maximal_iterations=4, prior_prediction_column="p", aggregate=case["agg"], **kw)


def spaces(tier):
    return [
        Space("diverging", lambda: diverge_cases(tier), check_diverge, "prior predictions equal or close to the target, so that cycles diverge and are repeated with clipped or removed effects"),
        Space("tables", lambda: table_cases(tier), check_table, "all multisets of 3 and 4 rows over {-1,0,1}x{0,1}x2 targets (every 5th per estimator in the quick tier), 13 estimators", warm=warm_basic),
        Space("configurations", lambda: cfg_cases(tier), check_cfg, "iterations {1,2,5} x 4 learning rates x 3 smoother choices x aggregation on/off x 6 estimators"),
        Space("flags", lambda: flag_cases(tier), check_flag, "10 x 3 flag sets x 6 estimators, 1D and 2D groups"),
        Space("stopping", lambda: stop_cases(tier), check_stop, "4 stop settings x hierarchical on/off x 6 estimators, target scales 1e-6..1e4"),
    ]
