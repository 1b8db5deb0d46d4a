"""C18: training performs the documented coordinate-wise Bayesian bin estimates."""
import itertools
import warnings

import numpy as np
import pandas as pd

from cyclic_boosting import CBNBinomRegressor, CBPoissonRegressor
from cyclic_boosting.base import ConvergenceError
from cyclic_boosting.common_smoothers import NoSmootherChoice
from cyclic_boosting.learning_rate import constant_learn_rate_one
from mc.core import close, ensure
from mc.est import MNL, U, groups_of, link_of, make, targets, warm_basic
from mc.props.c14 import Watch
from mc.reference import Training
from mc.run import Space
from mc.tables import STRUCTS, build, rows_universe, tables, thin

ASSUMPTIONS = [
    "Trainings in which a cycle diverges are compared up to that cycle.",
    "Smoothing is either switched off or the default for categorical features (regularisation to the mean); other smoothers are checked on their own.",
]
CYCLES = 4
PROPS = {"u": {"a": U, "b": U, "c": U}, "m": {"a": U | MNL, "b": U, "c": U}}
RATES = {
    "one": constant_learn_rate_one,
    "ramp": lambda it, mx, f=None: min(0.4 * it, 1.0),
    "default": None,
}
REF_RATES = {
    "one": lambda k, n: 1.0,
    "ramp": lambda k, n: min(0.4 * k, 1.0),
    "default": lambda k, n: min(k / (0.5 * n), 1.0),
}
WEIGHTS = [None, [1.0, 2.0, 0.5, 3.0, 0.1], [20.0, 1.0, 1.0, 5.0, 2.0], [1.0, 0.0, 2.0, 0.5, 1.0], [0.0, 1.0, 3.0, 0.0, 1.0]]
KINDS = ["poisson", "nbinom", "location", "locpoisson", "gbs", "classifier"]

PRIORS = {
    False: [[1.0, 2.5, 0.5, 4.0, 2.0], [3.0, float("nan"), 1.0, 0.2, 5.0], [2.0, 0.0, 7.0, float("inf"), 1.0]],
    True: [[0.2, 0.6, 0.5, 0.9, 0.1], [0.3, float("nan"), 0.8, 0.4, 0.6], [0.5, 0.0, 0.9, float("inf"), 1.0]],
}


def cases(tier):
    q = tier == "quick"
    t2, t3, t4 = list(tables(2, ny=3)), list(tables(3, ny=3)), list(tables(4, ny=2))
    out = []
    i = 0
    for kind in KINDS:
        ny = len(targets(kind))
        for struct in STRUCTS:
            for props in PROPS:
                for mode in ("none", "smooth"):
                    for rate in RATES:
                        for wi in range(len(WEIGHTS)):
                            for ts, per in ((t2, 2), (t3, 4), (t4, 3)) if q else ((t2, 25), (t3, 50), (t4, 50)):
                                for t in thin(ts, max(len(ts) // per, 1), 5 * i):
                                    if len(set(k % ny for k, v in zip(t["y"], WEIGHTS[wi] or [1.0] * 5) if v)) < 2:
                                        continue
                                    out.append({"kind": kind, "struct": struct, "props": props, "mode": mode, "rate": rate, "w": wi, "agg": i % 4 != 3, "t": t})
                                i += 1
    return out


def check(case, rec):
    kind = case["kind"]
    X, y = build(kind, case["t"])
    y = y * case.get("unit", 1.0)
    n = len(y)
    w = WEIGHTS[case["w"]]
    kw = {}
    if w is not None:
        w = (w * n)[:n]
        X["w"] = w
        kw["weight_column"] = "w"
    w = [1.0] * n if w is None else w
    if case["mode"] == "none":
        kw["smoother_choice"] = NoSmootherChoice()
    par = {}
    if kind == "nbinom":
        par = {"a": 1.3, "c": 0.2}
        kw.update(par)
    if kind == "gbs":
        par = {"regalpha": 0.3}
        kw.update(par)
    gs = STRUCTS[case["struct"]]
    props = PROPS[case["props"]]
    learned = [not any(props[c] & MNL == MNL and props[c] != U for c in (g if isinstance(g, list) else [g])) for g in gs]
    prior = None
    if case.get("prior") is not None:
        prior = (PRIORS[kind == "classifier"][case["prior"]] * n)[:n]
        X["p"] = prior
        kw["prior_prediction_column"] = "p"
    cycles, late, rate = CYCLES, [], REF_RATES[case["rate"]]
    if case.get("first"):
        cycles, rate = CYCLES + 2, REF_RATES["one"]
        late = [i for i in range(len(gs)) if i not in case["first"]]
        kw["hierarchical_feature_groups"] = groups_of([gs[i] for i in case["first"]])
    ref = Training(kind, {c: list(X[c]) for c in "abc"}, list(y), w, gs, cycles, rate, case["mode"], learned, par, case["agg"], prior, late, 3)
    if ref.degenerate:
        rec.outcome("zero uncertainty")
        return
    if not case["agg"]:
        kw["aggregate"] = False
    watch = Watch()
    m = make(kind, gs, props, maximal_iterations=cycles, minimal_factor_change=-1.0, minimal_loss_change=-1.0,
             learn_rate=RATES[case["rate"]], observers=[watch], **kw)
    tag = "%s %s %s smoothing %s rate %s weights %s accumulating %s priors %s groups %s first" % (kind, gs, case["props"], case["mode"], case["rate"], w, case["agg"], prior, case.get("first", "none"))
    error = False
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            m.fit(X, y)
        except ConvergenceError:
            error = True
    rec.op(cycles * len(gs))
    rec.trace()
    upto = ref.diverged if ref.diverged is not None else cycles
    ensure(len(watch.preds) > upto or error, lambda: "%s: only %d cycles" % (tag, len(watch.preds) - 1))
    scale = max(min(1.0, case.get("unit", 1.0)), float(np.abs(y).max()))
    for k in range(min(upto, len(watch.preds) - 1) + 1):
        close(watch.preds[k], ref.preds[k], "%s: in-sample prediction after %d cycles" % (tag, k), 1e-6, 1e-7 * scale)
        close(watch.losses[k], ref.losses[k], "%s: loss after %d cycles" % (tag, k), 1e-6, 1e-7 * scale)
        rec.state(kind, case["struct"], k, ref.preds[k])
    if ref.diverged is not None or error:
        ensure(ref.diverged is not None, lambda: tag + ": convergence error")
        rec.outcome("diverged")
        return
    lk = link_of(kind)
    close(m.global_scale_link_, ref.base, tag + ": base value", 1e-9, 1e-12)
    for gi, g in enumerate(gs):
        g = g if isinstance(g, list) else [g]
        grid = ref.grids[gi]
        cells = [c if c is not None else tuple([-1] * len(g)) for c in grid.all]
        Q = pd.DataFrame({c: np.zeros(len(cells)) for c in "abc"})
        for j, c in enumerate(g):
            Q[c] = [float(cell[j]) for cell in cells]
        got = lk(np.asarray(m.get_feature_contributions(Q)[" ".join(g)], dtype=float))
        close(got, [ref.eff[gi][c] for c in grid.all], "%s: effects of %s on cells %s" % (tag, g, cells), 1e-6, 1e-7)
    rec.outcome(kind)


def more_cases(tier):
    """Priors and groups trained first, for interleaved shares of the cases."""
    picked = [c for c in cases(tier) if c["kind"] != "gbs"]
    step = 24 if tier == "quick" else 6
    out = [dict(c, prior=p) for p in range(len(PRIORS[0])) for c in picked[p::step]]
    many = [c for c in cases(tier) if len(STRUCTS[c["struct"]]) > 1]
    for j, first in enumerate(([0], [1], [0, 1])):
        out += [dict(c, first=first, prior=None if c["kind"] == "gbs" or i % 3 else j) for i, c in enumerate(many[j :: step // 2])]
    return out


def unit_cases(tier):
    """Targets in other units, for every fourth (every) of the cases.

    Large residuals over variances next to zero magnify rounding in the location-Poisson model.
    """
    picked = [c for c in cases(tier) if c["kind"] != "classifier"]
    return [dict(c, unit=u) for j, u in enumerate((1e-3, 0.04, 30.0, 1e4)) for c in picked[j :: 16 if tier == "quick" else 4] if u < 1 or c["kind"] != "locpoisson"]


def size_cases(tier):
    """Tables of many rows and bins, filled by fixed patterns."""
    out = []
    i = 0
    for kind in KINDS:
        ny = len(targets(kind))
        for struct in STRUCTS:
            for n, na, nb in ((30, 7, 3), (120, 40, 2), (400, 12, 30)) if tier == "quick" else ((30, 7, 3), (120, 40, 2), (400, 12, 30), (3000, 150, 9)):
                for mode in ("none", "smooth"):
                    for props in PROPS:
                        rows = [[(j * 7 + j // 5) % (na + 1) - 1, (j * j) % nb] for j in range(n)]
                        t = {"rows": rows, "y": [(j * 3 + j // 7 + (rows[j][0] > 2)) % ny for j in range(n)]}
                        out.append({"kind": kind, "struct": struct, "props": props, "mode": mode, "rate": list(RATES)[i % 3], "w": i % len(WEIGHTS), "agg": i % 4 != 3, "size": [n, na, nb]})
                        out[-1]["t"] = t
                        i += 1
    return out


def plain_cases(tier):
    """Every fourth (every) training of the Poisson model."""
    picked = [c for c in cases(tier) + size_cases(tier) if c["kind"] == "poisson"]
    return picked[:: 4 if tier == "quick" else 1]


def check_plain(case, rec):
    """The negative binomial model is the Poisson model by default."""
    X, y = build("poisson", case["t"])
    kw = {}
    w = WEIGHTS[case["w"]]
    if w is not None:
        X["w"] = (w * len(y))[: len(y)]
        kw["weight_column"] = "w"
    if case["mode"] == "none":
        kw["smoother_choice"] = NoSmootherChoice()
    if not case["agg"]:
        kw["aggregate"] = False
    seen = []
    for cls in (CBPoissonRegressor, CBNBinomRegressor):
        watch = Watch()
        m = cls(feature_groups=groups_of(STRUCTS[case["struct"]]), feature_properties=PROPS[case["props"]], maximal_iterations=CYCLES, minimal_factor_change=-1.0, minimal_loss_change=-1.0,
                 learn_rate=RATES[case["rate"]], observers=[watch], **kw)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                m.fit(X, y)
            except ConvergenceError:
                pass
        seen.append(watch.preds)
    rec.op(2 * CYCLES)
    rec.trace()
    for k, (p, q) in enumerate(zip(*seen)):
        close(q, p, "%s smoothing %s: negative binomial model by default against Poisson model after %d cycles" % (STRUCTS[case["struct"]], case["mode"], k), 1e-6, 1e-8)
        rec.state(k, p)
    rec.outcome("defaults")


def spaces(tier):
    return [
        Space("trainings", lambda: cases(tier), check,
              "6 estimators x 6 structures x learned/not learned missing values x smoothing off/default x 3 learning rates x 5 weightings (two with zeros) x interleaved subsets of all 2-, 3- and 4-row tables; every cycle of 4",
              warm=warm_basic),
        Space("sizes", lambda: size_cases(tier), check, "6 estimators x 6 structures x tables of 30, 120 and 400 (3000) rows with up to 40 (150) bins filled by fixed patterns x smoothing off/default x learned/not learned missing values"),
        Space("units", lambda: unit_cases(tier), check, "every fourth (every) training of the regressors above with targets scaled by 0.001, 0.04, 30 or 10000"),
        Space("priors-and-hierarchy", lambda: more_cases(tier), check, "interleaved shares of the trainings above with 3 prior columns (missing, zero and infinite ones included) and with 3 choices of groups trained first"),
        Space("defaults", lambda: plain_cases(tier), check_plain, "every fourth (every) Poisson training above repeated with the negative binomial model by default"),
    ]
