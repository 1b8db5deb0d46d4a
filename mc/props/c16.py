"""C16: observers see the real training and never change it."""
import itertools
import warnings

import numpy as np

from cyclic_boosting.base import ConvergenceError
from cyclic_boosting.observers import BaseObserver, PlottingObserver
from mc.core import close, ensure, is_close, snapshot
from mc.est import C, GENERIC, U, make, warm_basic
from mc.props.c12 import same
from mc.run import Space
from mc.tables import PROPS, STRUCTS, build, query, tables, thin

ASSUMPTIONS = [
    "A plotting observer for cycle n is filled when training runs more than n cycles (or n = -1).",
    "The prediction handed over after a feature group is the one from the start of the cycle.",
]
CYCLES = 4


def rate(iteration, maximal_iteration, feature=None):
    """A learning rate that does not depend on the iteration limit."""
    return min(0.4 * iteration, 1.0)


class Tape(BaseObserver):
    def __init__(self):
        self.calls = []

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        self.calls.append(("cycle", iteration, None, snapshot(X), np.array(y), np.array(prediction), np.array(weights),
                           float(estimator_state["insample_loss"]), float(delta), quantile,
                           [f.feature_group for f in estimator_state["features"]]))

    def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
        self.calls.append(("group", iteration, feature_i, snapshot(X), np.array(y), np.array(prediction), np.array(weights),
                           float(estimator_state["insample_loss"]), None, None,
                           [f.feature_group for f in estimator_state["features"]]))


SETS = [[], ["tape"], ["tape", -1], [-1, "tape"], [1, "tape"], [2, -1], [3, 1, "tape"], ["tape", "tape", 2], [1, 2, 3, -1]]


def cases(tier):
    q = tier == "quick"
    ts = list(tables(4))
    out = []
    i = 0
    for kind in ("poisson", "nbinom", "location", "locpoisson", "gbs", "classifier", "nbinomc", "expo", "agen", "mgen", "gclf", "aquant", "mquant"):
        for struct in ("1d", "2x1d", "mixed", "rev"):
            if kind in GENERIC and struct != "2x1d":
                continue
            for props in ("u", "c", "m"):
                if kind in GENERIC and props != "u":
                    continue
                for hier in (False, True):
                    if hier and (kind in ("expo", "nbinomc") or kind in GENERIC or struct == "1d"):
                        continue
                    per = (3 if kind not in GENERIC else 2 if kind != "mquant" else 1) * (1 if q else 10)
                    for t in thin(ts, len(ts) // per, 11 * i):
                        out.append({"kind": kind, "struct": struct, "props": props, "hier": hier, "w": i % 2, "t": t})
                    i += 1
    return out


def train(case, limit, observers, other=False):
    kind = case["kind"]
    X, y = build(kind, case["t"])
    gs = STRUCTS[case["struct"]]
    kw = {}
    if case["w"] and kind not in ("nbinomc",):
        X["w"] = np.array([1.0, 2.0, 0.5, 1.5])[: len(X)]
        kw["weight_column"] = "w"
    if case["hier"]:
        g = gs[0]
        kw["hierarchical_feature_groups"] = [tuple(g) if isinstance(g, list) else g]
    if kind == "expo":
        kw["external"] = ["b"]
    if observers is not None:
        kw["observers"] = observers
    m = make(kind, gs, PROPS[case["props"]], maximal_iterations=limit, minimal_factor_change=-1.0, minimal_loss_change=-1.0, learn_rate=rate, **kw)
    if other:
        y = y[::-1].copy() if kind in ("classifier", "gclf") else y[::-1] * 1.5 + 0.5
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            m.fit(X, y)
        except ConvergenceError:
            return None, X, y
    return m, X, y


def report(kind, m, Q):
    out = {"pred": np.asarray(m.predict(Q), dtype=float), "it": m.iteration_}
    if kind == "classifier":
        out["proba"] = m.predict_proba(Q)
    for k, v in m.get_feature_contributions(Q).items():
        out["contribution of " + k] = np.asarray(v, dtype=float)
    for k, v in m.get_feature_importances().items():
        out["importance of " + str(k)] = float(v)
    return out


FIELDS = ["factors_link", "fitted_aggregated", "unfitted_factors_link", "unfitted_uncertainties_link", "bin_weightsums", "n_multi_bins_finite"]


def recorded(obs):
    out = {"loss": [float(x) for x in obs.loss], "change": [float(x) for x in obs.factor_change]}
    out["bins"] = {str(k): list(np.ravel(v)) for k, v in obs.n_feature_bins.items()}
    out["features"] = [
        dict([("group", list(f.feature_group))] + [(a, np.array(getattr(f, a), dtype=float)) for a in FIELDS if getattr(f, a, None) is not None])
        for f in obs.features
    ]
    out["hist"] = [None if h is None else np.asarray(h, dtype=float) for h in obs.histograms]
    return out


def same_record(a, b, what, increments=False):
    ensure(a["loss"] == b["loss"] or is_close(a["loss"], b["loss"], 1e-9, 1e-12), lambda: "%s: loss history %s, expected %s" % (what, a["loss"], b["loss"]))
    ensure(len(a["change"]) == len(b["change"]) and is_close(a["change"], b["change"], 1e-9, 1e-12), lambda: "%s: factor changes %s, expected %s" % (what, a["change"], b["change"]))
    ensure(a["bins"] == b["bins"], lambda: "%s: numbers of bins %s, expected %s" % (what, a["bins"], b["bins"]))
    ensure([f["group"] for f in a["features"]] == [f["group"] for f in b["features"]], lambda: what + ": groups differ")
    for f, g in zip(a["features"], b["features"]):
        for k in f:
            if k != "group" and k in g and not (increments and k == "factors_link"):
                close(f[k], g[k], "%s: %s of %s" % (what, k, f["group"]), 1e-9, 1e-12)
    for h, g in zip(a["hist"], b["hist"]):
        ensure((h is None) == (g is None), what + ": histogram missing")
        if h is not None:
            close(h, g, what + ": histogram", 1e-9, 1e-12)


def check(case, rec):
    kind = case["kind"]
    base, X, y = train(case, CYCLES, None)
    rec.op()
    if base is None:
        rec.outcome("convergence error")
        return
    Q = query(kind, a=(-1, 0, 1, 5), b=(-1, 0, 1), c=(0, 1))
    want = report(kind, base, Q)
    n = base.iteration_
    tag = "%s %s %s" % (kind, STRUCTS[case["struct"]], case["props"])
    # the model after k cycles
    after = {}
    for k in range(1, n + 1):
        tape = Tape()
        m, _, _ = train(case, k, [PlottingObserver(), tape])
        rec.op()
        if m is not None and m.iteration_ == k:
            after[k] = (m, recorded(m.observers[0]), tape)
    sets = SETS if kind not in GENERIC else (SETS[4], SETS[8]) if kind != "mquant" else (SETS[6],)
    w = np.array(X["w"]) if "w" in X.columns else np.ones(len(X))
    keep = None
    short = {}
    for s in sets:
        obs = [Tape() if o == "tape" else PlottingObserver(iteration=o) for o in s]
        m, X2, y2 = train(case, CYCLES, obs)
        rec.op()
        rec.trace()
        what = "%s with observers %s" % (tag, s)
        ensure(m is not None, what + ": convergence error")
        got = report(kind, m, Q)
        same(got, want, what)
        for o, spec in zip(obs, s):
            if spec == "tape":
                check_tape(case, what, o, X, y, w, m, n, after, rec)
            else:
                k = n if spec == -1 else spec
                if k < n or spec == -1:
                    r = recorded(o)
                    rec.state(kind, k, r["loss"])
                    if k in after and not (case["hier"] and spec != -1 and k <= 3):
                        same_record(r, after[k][1], "%s: record of cycle %s" % (what, spec), increments=spec != -1)
                    if spec != -1:
                        if k not in short:
                            o2 = PlottingObserver(k)
                            if train(case, k + 1, [o2])[0] is not None:
                                short[k] = recorded(o2)
                        if k in short:
                            same_record(r, short[k], "%s: record of cycle %s against a shorter training" % (what, spec))
                    ensure(len(r["loss"]) == k + 1 and len(r["change"]) == k, lambda: "%s: record of cycle %s has %d losses and %d changes" % (what, spec, len(r["loss"]), len(r["change"])))
        keep = (m, obs, s)
    # records do not change when training goes on elsewhere, and a refit starts them anew
    m, obs, s = keep
    first = [recorded(o) if sp != "tape" else None for o, sp in zip(obs, s)]
    train(case, CYCLES + 1, [PlottingObserver(1), PlottingObserver()], other=True)
    m.predict(Q)
    for o, sp, r in zip(obs, s, first):
        if sp != "tape":
            same_record(recorded(o), r, "%s: record of cycle %s after other training" % (tag, sp))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.fit(X, y)
    rec.op(2)
    for o, sp, r in zip(obs, s, first):
        if sp != "tape":
            same_record(recorded(o), r, "%s: record of cycle %s after a refit with the same data" % (tag, sp))
    rec.outcome(kind)


def check_tape(case, what, tape, X, y, w, m, n, after, rec):
    kind = case["kind"]
    calls = tape.calls
    gs = len(STRUCTS[case["struct"]]) + (1 if kind == "expo" else 0)
    expected = []
    for k in range(n):
        expected.append(("cycle", k, None))
        for g in range(gs):
            if not case["hier"] or k >= 3 or g == 0:
                expected.append(("group", k, g))
    expected.append(("cycle", -1, None))
    ensure([c[:3] for c in calls] == expected, lambda: "%s: calls %s, expected %s" % (what, [c[:3] for c in calls], expected))
    snap = snapshot(X)
    start = None
    k = -1
    for c in calls:
        rec.op()
        ensure(c[3] == snap, what + ": observer got other data")
        close(c[4], y, what + ": target", 0, 0)
        close(c[6], w, what + ": weights", 0, 0)
        if c[0] == "cycle":
            k = c[1] if c[1] >= 0 else n
            start = c[5]
            rec.state(kind, k, c[5], c[7])
            if kind != "nbinomc":
                close(c[7], m.loss(c[5], y, w), "%s: loss before cycle %d" % (what, k), 1e-9, 1e-12)
            if k in after:
                fin = after[k][2].calls[-1]
                close(c[5], fin[5], "%s: prediction before cycle %d" % (what, k), 1e-9, 1e-12)
                close(c[7], fin[7], "%s: loss before cycle %d" % (what, k), 1e-9, 1e-12)
                close(c[8], fin[8], "%s: factor change before cycle %d" % (what, k), 1e-9, 1e-12)
                mm = after[k][0]
                p = mm.predict_proba(X)[:, 1] if kind == "classifier" else mm.predict(X)
                got = np.maximum(c[5], 0) if kind == "locpoisson" else c[5]
                close(got, p, "%s: prediction of the model after %d cycles" % (what, k), 1e-7, 1e-9)
            if k == n:
                close(c[7], m.insample_loss_, what + ": final loss", 0, 0)
            if kind in ("aquant", "mquant"):
                ensure(c[9] == m.quantile, lambda: "%s: quantile %s" % (what, c[9]))
        else:
            close(c[5], start, "%s: prediction handed over after a group of cycle %d" % (what, k), 0, 0)


def spaces(tier):
    return [
        Space("observer-sets", lambda: cases(tier), check,
              "13 estimators x 4 structures x 3 property sets x hierarchical or not x interleaved 4-row tables x 9 sets of observers, 4 cycles each, all prefixes of the training",
              warm=warm_basic),
    ]
