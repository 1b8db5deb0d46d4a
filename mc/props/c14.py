"""C14: the training loop stops exactly when its criteria say so.

The loop is modelled as an explicit state machine (`machine`).  Every sequence of
loss outcomes within the bounds is executed on the model and replayed on the real
estimators, whose loss is scripted cycle by cycle; in a second space the natural
course of real trainings is recorded and all thresholds around the recorded values
are tried."""
import itertools
import warnings

import numpy as np
import pandas as pd

import cyclic_boosting as cb
from cyclic_boosting.base import ConvergenceError
from cyclic_boosting.learning_rate import constant_learn_rate_one
from cyclic_boosting.observers import BaseObserver
from cyclic_boosting.price import CBExponential
from mc.core import close, ensure
from mc.est import C, U, make, raw_predict, warm_basic
from mc.run import Space
from mc.tables import STRUCTS, build, rows_universe, tables, thin

ASSUMPTIONS = [
    "The iteration limit is at least one; the minimal factor and loss changes are below 100 (training starts from a factor change of 100, so a larger limit would stop it before the first cycle).",
    "A cycle 'diverges' when its loss is more than twice the loss before the first cycle; losses are never NaN.",
]


class Watch(BaseObserver):
    """Records the calls and tells the scripted loss which cycle is running."""

    def __init__(self):
        self.events = []
        self.cycle = 0
        self.deltas = []
        self.losses = []
        self.preds = []

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        self.events.append(("cycle", iteration))
        if iteration >= 0:
            self.cycle = iteration + 1
        self.deltas.append(float(delta))
        self.losses.append(float(estimator_state["insample_loss"]))
        self.preds.append(np.array(prediction, dtype=float))

    def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
        self.events.append(("group", iteration, feature_i))


def machine(losses, cfg, deltas=None):
    """Model of the loop.  `losses[k]` is the loss after k cycles, `deltas[k]` the
    factor change of cycle k (None: never below the limit)."""
    n, hier, h = cfg["groups"], cfg["hier"], cfg["h"]
    events, visited = [], []
    k, div, diverging = 0, 0, False
    change, delta = np.inf, np.inf
    while True:
        crit = (k >= cfg["max"], delta <= cfg["minf"], abs(change) <= cfg["minl"])
        veto = hier is not None and k <= h
        visited.append((k, div, diverging, crit, veto))
        if any(crit) and not veto and not diverging:
            events.append(("cycle", -1))
            return {"events": events, "cycles": k, "crit": crit, "error": False, "visited": visited}
        events.append(("cycle", k))
        for g in range(n):
            if hier is None or k >= h or g in hier:
                events.append(("group", k, g))
        old, new = losses[k], losses[k + 1]
        change = old - new
        if old != 0:
            change /= old
        if new > 2 * losses[0]:
            div += 1
            diverging = True
            if div == 5:
                return {"events": events, "cycles": k, "crit": None, "error": True, "visited": visited}
        else:
            diverging = False
        delta = deltas[k] if deltas is not None else np.inf
        k += 1


X0 = pd.DataFrame({"a": [0.0, 0, 1, 1, -1], "b": [0.0, 1, 0, 1, 1], "c": [1.0, 0, 0, 1, 0], "price": [1, 0.8, 1.2, 1, 0.9],
                   "mu": [1.0, 2.0, 1.5, 3.0, 2.0]})
Y0 = {"classifier": [0.0, 1, 1, 0, 1]}
Y1 = [1.0, 2, 3, 1, 2]
GROUPS = ["a", "b", ["a", "c"]]


def scripted(kind, script, watch, **kw):
    """The estimator with its loss replaced by the script."""
    m = make(kind, **kw)
    m.observers = [watch]

    class Scripted(type(m)):
        def loss(self, prediction, y, weights):
            return script[watch.cycle]

    m.__class__ = Scripted
    return m


VALUES = {
    "free": [0.0, 0.5, 0.55, 1.0, 2.0, 2.5],
    "deep": [0.5, 1.0, 2.5],
}


def script_cases(tier):
    out = []
    k = 0
    q = tier == "quick"
    hiers = [(None, 3), ([0], 3), ([1, 2], 2), ([1], 1), ([0, 1, 2], 1)]
    for kind in ("location", "poisson", "classifier", "gbs", "nbinomc", "expo", "agen"):
        main = kind == "location"
        for name, length in (("free", 4), ("deep", 7 if (q or not main) else 9)):
            seqs = list(itertools.product(VALUES[name], repeat=length))
            for init in (1.0, 0.0) if name == "free" else (1.0,):
                for hier, h in hiers:
                    if hier is not None and kind in ("expo", "nbinomc"):
                        continue
                    if kind == "agen" and hier is not None and h != 1:
                        continue
                    for mx in (1, 2, 4) if name == "free" else (3, length):
                        for minl in (-1.0, 0.0, 0.1):
                            step = (97 if main else 389 if kind != "agen" else 3001) if q else (7 if main else 41)
                            if kind == "nbinomc" and q:
                                step = 997
                            if kind in ("poisson", "expo"):
                                step = step * 2 // 3
                            for s in thin(seqs, step, k):
                                out.append({"kind": kind, "script": [init] + list(s), "hier": hier, "h": h, "max": mx, "minl": minl})
                            k += 1
    if not q:
        return out
    # the plain configuration is covered completely
    for s in itertools.product(VALUES["deep"], repeat=6):
        out.append({"kind": "location", "script": [1.0] + list(s), "hier": None, "h": 3, "max": 3, "minl": 0.1})
    for s in itertools.product(VALUES["free"], repeat=4):
        out.append({"kind": "location", "script": [1.0] + list(s), "hier": None, "h": 3, "max": 3, "minl": 0.1})
    return out


def check_script(case, rec):
    kind = case["kind"]
    # after the script the loss is back at its first value and stays there
    script = case["script"] + [case["script"][0]] * 12
    cfg = {"groups": 3, "hier": case["hier"], "h": case["h"], "max": case["max"], "minf": -1.0, "minl": case["minl"]}
    want = machine(script, cfg)
    rec.op(len(want["visited"]))
    for s in want["visited"]:
        rec.state(s)
    watch = Watch()
    kw = dict(groups=GROUPS, props={"a": U, "b": U, "c": U}, maximal_iterations=case["max"], minimal_factor_change=-1.0,
              minimal_loss_change=case["minl"])
    if kind == "expo":
        kw["groups"] = GROUPS[:2]
        kw["external"] = [GROUPS[2]]
    if case["hier"] is not None:
        gs = [tuple(g) if isinstance(g, list) else g for g in GROUPS]
        kw["hierarchical_feature_groups"] = [gs[i] for i in case["hier"]]
        if kind != "agen":
            kw["training_iterations_hierarchical_features"] = case["h"]
        elif case["h"] != 3:
            cfg["h"] = 3
            want = machine(script, cfg)
    y = np.array(Y0.get(kind, Y1))
    try:
        m = scripted(kind, script, watch, **kw)
    except TypeError:
        # estimators that do not expose the length of the hierarchical phase use three cycles
        kw.pop("training_iterations_hierarchical_features", None)
        cfg["h"] = 3
        want = machine(script, cfg)
        m = scripted(kind, script, watch, **kw)
    error = False
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            m.fit(X0.copy(), y)
        except ConvergenceError:
            error = True
    tag = "losses %s, limit %d, minimal loss change %g, hierarchical %s/%d" % (case["script"], case["max"], case["minl"], case["hier"], cfg["h"])
    rec.trace()
    ensure(error == want["error"], lambda: "%s: convergence error %s, model says %s" % (tag, error, want["error"]))
    ensure(watch.events == want["events"], lambda: "%s: calls %s, model %s" % (tag, watch.events, want["events"]))
    rec.outcome("error" if error else "".join("ifl"[i] for i in range(3) if want["crit"][i]))
    if not error:
        ensure(m.iteration_ == want["cycles"], lambda: "%s: %d cycles, model %d" % (tag, m.iteration_, want["cycles"]))
        ensure(tuple(bool(b) for b in m.stop_criteria_) == want["crit"], lambda: "%s: criteria %s, model %s" % (tag, m.stop_criteria_, want["crit"]))
        close(watch.losses, [script[k] for k in range(want["cycles"] + 1)], tag + ": losses", 0, 0)


# ------------------------------------------------------------------ natural course


def natural_cases(tier):
    q = tier == "quick"
    ts = list(tables(4))
    out = []
    for ki, kind in enumerate(("poisson", "location", "nbinom", "locpoisson", "gbs", "classifier", "expo", "nbinomc", "agen", "mgen")):
        for si, struct in enumerate(("1d", "2x1d", "mixed", "rev")):
            for hier in (None, 0, 1):
                if hier is not None and (kind in ("expo", "nbinomc") or struct == "1d"):
                    continue
                if kind in ("agen", "mgen") and (hier is not None or struct != "2x1d"):
                    continue
                step = len(ts) // ((2 if kind not in ("agen", "mgen") else 1) if q else 20) - 1
                for t in thin(ts, step, 13 * ki + 5 * si + (hier or 0)):
                    out.append({"kind": kind, "struct": struct, "hier": hier, "t": t})
    return out


def run(case, mx, minf, minl, hier=True, groups=None):
    kind = case["kind"]
    X, y = build(kind, case["t"])
    gs = groups or STRUCTS[case["struct"]]
    watch = Watch()
    kw = {}
    if kind == "expo":
        kw["external"] = ["b"]
    if hier and case["hier"] is not None:
        g = gs[case["hier"]]
        kw["hierarchical_feature_groups"] = [tuple(g) if isinstance(g, list) else g]
    m = make(kind, gs, {"a": C, "b": U, "c": U}, maximal_iterations=mx, minimal_factor_change=minf, minimal_loss_change=minl,
             learn_rate=constant_learn_rate_one, observers=[watch], **kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            m.fit(X, y)
        except ConvergenceError:
            return None, watch
    return m, watch


def mids(values):
    """Thresholds that separate the values, equal them or lie next to them."""
    out = {-1.0, 99.0}
    v = sorted(set(values))
    for a, b in zip(v, v[1:]):
        out.add((a + b) / 2)
    for a in v:
        out |= {a, float(np.nextafter(a, np.inf)), float(np.nextafter(a, -np.inf))}
    return sorted(x for x in out if x < 100)


def check_natural(case, rec):
    kind = case["kind"]
    n = 6
    m, w = run(case, n, -1.0, -1.0)
    rec.op()
    if m is None:
        rec.outcome("convergence error")
        return
    ngroups = len(STRUCTS[case["struct"]]) + (1 if kind == "expo" else 0)
    ensure(m.iteration_ >= n, lambda: "%s: %d cycles without any criterion but the limit %d" % (kind, m.iteration_, n))
    losses = w.losses
    deltas = w.deltas[1:]
    changes = [abs((a - b) / a if a != 0 else a - b) for a, b in zip(losses, losses[1:])]
    h = 3 if case["hier"] is not None else 0
    cfg = {"groups": ngroups, "hier": None if case["hier"] is None else [case["hier"]], "h": 3, "max": n}
    fs = mids(deltas)
    ls = mids(changes)
    if kind in ("agen", "mgen"):
        fs, ls = fs[::4], ls[::5]
    combos = [(n, f, -1.0) for f in fs] + [(n, -1.0, l) for l in ls]
    combos += [(mx, f, l) for mx in (1, 2, 5) for f in fs[1::9] for l in ls[2::9]]
    for mx, f, l in combos:
        want = machine(losses + [losses[-1]] * 8, dict(cfg, max=mx, minf=f, minl=l), deltas + [0.0] * 8)
        if want["cycles"] > n or want["error"]:
            continue
        m2, w2 = run(case, mx, f, l)
        rec.op()
        rec.trace()
        tag = "%s limit %d, minimal factor change %r, minimal loss change %r (factor changes %s, loss changes %s)" % (kind, mx, f, l, deltas, changes)
        ensure(m2 is not None, tag + ": convergence error")
        ensure(w2.events == want["events"], lambda: "%s: calls %s, model %s" % (tag, w2.events, want["events"]))
        ensure(tuple(bool(b) for b in m2.stop_criteria_) == want["crit"], lambda: "%s: criteria %s, model %s" % (tag, m2.stop_criteria_, want["crit"]))
        k = want["cycles"]
        rec.state(kind, case["struct"], case["hier"], k, want["crit"])
        rec.outcome("stopped by " + "".join("ifl"[i] for i in range(3) if want["crit"][i]))
        close(w2.preds[-1], w.preds[k], tag + ": in-sample prediction at the end", 1e-9, 1e-12)
    if case["hier"] is None and kind not in ("locpoisson",) and not any(x > 2 * losses[0] for x in losses):
        check_delta(case, n, deltas, rec)
    if case["hier"] is not None:
        g = STRUCTS[case["struct"]][case["hier"]]
        m3, w3 = run(case, h, -1.0, -1.0, hier=False, groups=[g])
        rec.op()
        for k in range(h + 1):
            close(w.preds[k], w3.preds[k], "%s: prediction of hierarchical cycle %d against training the hierarchical group alone" % (kind, k), 1e-7, 1e-9)


def check_delta(case, n, deltas, rec):
    """The factor change of cycle k is the mean over groups of the mean absolute
    difference between the updates of cycles k and k-1."""
    kind = case["kind"]
    if kind == "expo":
        return
    X, _ = build(kind, case["t"])
    cells = {}
    for g in STRUCTS[case["struct"]]:
        g = g if isinstance(g, list) else [g]
        V = X[g][(X[g] >= 0).all(axis=1)]
        sizes = [int(V[c].max()) + 1 if len(V) else 0 for c in g]
        cells[" ".join(g)] = (g, list(itertools.product(*[range(s) for s in sizes])) + [tuple([-1] * len(g))])
    from mc.est import link_of

    lk = link_of(kind)
    prev, prev_upd = None, None
    for k in range(1, n):
        m, _ = run(case, k, -1.0, -1.0)
        rec.op()
        eff = {}
        for name, (g, cs) in cells.items():
            Q = pd.DataFrame({c: np.zeros(len(cs)) for c in ("a", "b", "c")})
            for j, c in enumerate(g):
                Q[c] = [float(cell[j]) for cell in cs]
            Q["mu"] = 1.0
            eff[name] = lk(np.asarray(m.get_feature_contributions(Q)[name], dtype=float))
        if prev is None:
            prev = {k2: np.zeros_like(v) for k2, v in eff.items()}
            prev_upd = prev
        upd = {k2: eff[k2] - prev[k2] for k2 in eff}
        want = np.mean([np.mean(np.abs(upd[k2] - prev_upd[k2])) for k2 in eff])
        close(deltas[k - 1], want, "%s %s: mean factor change of cycle %d" % (kind, case["struct"], k), 1e-6, 1e-7)
        prev, prev_upd = eff, upd


def spaces(tier):
    return [
        Space("loss-histories", lambda: script_cases(tier), check_script,
              "all loss histories over {0, 0.5, 0.55, 1, 2, 2.5} x initial loss up to 4 cycles and over {0.5, 1, 2.5} up to 6 cycles for the plain location model; interleaved subsets of them for 7 estimators x 5 hierarchical settings x 3 limits x 3 thresholds",
              warm=warm_basic),
        Space("thresholds", lambda: natural_cases(tier), check_natural,
              "10 estimators x 4 structures x 3 hierarchical settings x selected 4-row tables; every threshold equal to, next to and between the recorded factor and loss changes of 6 cycles",
              warm=warm_basic),
    ]
