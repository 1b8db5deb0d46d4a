"""C19: learning rates rise monotonically to full strength."""
import itertools
import math
import warnings

import numpy as np

from cyclic_boosting import learning_rate as L
from cyclic_boosting.common_smoothers import NoSmootherChoice
from mc.core import close, ensure
from mc.est import ADD, GENERIC, U, link_of, make, warm_basic
from mc.run import Space
from mc.tables import STRUCTS, build, tables, thin

ASSUMPTIONS = ["'Full strength' of the logistic schedule means 0.999999999 (its documented saturation)."]
SAT = math.atanh(0.999999999)
FORMS = {
    "constant_learn_rate_one": lambda k, n: 1.0,
    "linear_learn_rate": lambda k, n: k / n,
    "half_linear_learn_rate": lambda k, n: min(2.0 * k / n, 1.0),
    "logistic_learn_rate": lambda k, n: math.tanh(SAT * k / n),
}


def schedule_cases(tier):
    top = 300 if tier == "quick" else 2000
    return [{"name": name, "max": n} for name in FORMS for n in range(1, top + 1)]


def check_schedule(case, rec):
    f = getattr(L, case["name"])
    n = case["max"]
    vals = [float(f(k, n, None)) for k in range(1, n + 1)]
    rec.op(n)
    rec.trace()
    for k, v in enumerate(vals, 1):
        rec.state(case["name"], round(v, 7))
        ensure(0 < v <= 1, lambda: "%s(%d, %d) = %r" % (case["name"], k, n, v))
        close(v, FORMS[case["name"]](k, n), "%s(%d, %d)" % (case["name"], k, n), 1e-7, 1e-10)
        if k > 1:
            ensure(v >= vals[k - 2], lambda: "%s decreases from %r to %r in cycle %d of %d" % (case["name"], vals[k - 2], v, k, n))
    close(vals[-1], 1.0, "%s at the end of %d cycles" % (case["name"], n), 0, 2e-9)
    if case["name"] == "half_linear_learn_rate":
        for k in range((n + 1) // 2, n + 1):
            if 2 * k >= n:
                close(vals[k - 1], 1.0, "half-linear rate in cycle %d of %d" % (k, n), 0, 1e-12)
    # the same without the optional argument
    ensure(float(f(1, n)) == vals[0], case["name"] + ": depends on the optional argument")


def use_cases(tier):
    q = tier == "quick"
    ts = list(tables(3))
    out = []
    i = 0
    for kind in ("poisson", "nbinom", "location", "locpoisson", "gbs", "classifier", "nbinomc", "expo", "agen", "mgen", "gclf"):
        for struct in ("1d", "2x1d", "2d", "rev"):
            for hier in (False, True):
                if hier and (kind in ("expo", "nbinomc") or kind in GENERIC or struct in ("1d", "2d")):
                    continue
                per = (8 if kind not in GENERIC else 2) * (1 if q else 20)
                for t in thin(ts, len(ts) // per, 3 * i):
                    for limit in (1, 2, 3, 5):
                        if kind in GENERIC and limit > 3:
                            continue
                        out.append({"kind": kind, "struct": struct, "hier": hier, "limit": limit, "t": t})
                i += 1
    return out


def train(case, limit, rate, smoothing=False, minimal=-1.0):
    kind = case["kind"]
    X, y = build(kind, case["t"])
    gs = STRUCTS[case["struct"]]
    kw = {}
    if kind == "expo":
        kw["external"] = ["b"]
    if not smoothing:
        kw["smoother_choice"] = NoSmootherChoice()
    if case["hier"]:
        g = gs[0]
        kw["hierarchical_feature_groups"] = [tuple(g) if isinstance(g, list) else g]
    if rate is not None:
        kw["learn_rate"] = rate
    m = make(kind, gs, {"a": U, "b": U, "c": U}, maximal_iterations=limit, minimal_factor_change=minimal, minimal_loss_change=minimal, **kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.fit(X, y)
    return m, X


def check_use(case, rec):
    from cyclic_boosting.base import ConvergenceError

    kind = case["kind"]
    limit = case["limit"]
    calls = []

    def spy(iteration, maximal_iteration, feature=None):
        calls.append((iteration, maximal_iteration))
        return min(0.3 * iteration, 1.0)

    tag = "%s %s limit %d" % (kind, STRUCTS[case["struct"]], limit)
    rec.trace()
    try:
        m, X = train(case, limit, spy)
    except ConvergenceError:
        rec.outcome("convergence error")
        return
    rec.op()
    n = len(STRUCTS[case["struct"]]) + (1 if kind == "expo" else 0)
    if case["hier"]:
        # hierarchical training always uses the full rate
        m1, _ = train(case, limit, L.constant_learn_rate_one)
        rec.op()
        compare(m, m1, X, tag + ": hierarchical training with a rate against full rate", rec)
        rec.outcome("hierarchical")
        return
    want = [(k, limit) for k in range(1, limit + 1) for _ in range(n)]
    if m.iteration_ == limit:
        ensure(calls == want, lambda: "%s: schedule asked for %s, expected %s" % (tag, calls, want))
    # the default is the half-linear schedule (dispersion model: full rate)
    m0, _ = train(case, limit, None)
    m1, _ = train(case, limit, L.half_linear_learn_rate if kind != "nbinomc" else L.constant_learn_rate_one)
    rec.op(2)
    compare(m0, m1, X, tag + ": default schedule against the documented one", rec)
    # first cycle: the effect is the full estimate times the rate
    if limit == 1 and len(STRUCTS[case["struct"]]) == 1 and kind != "expo":
        full, _ = train(case, 1, L.constant_learn_rate_one)
        lk = link_of(kind)
        e1 = {g: lk(np.asarray(v, dtype=float)) for g, v in full.get_feature_contributions(X).items()}
        for r in (0.1, 0.3, 0.75):
            part, _ = train(case, 1, lambda *a, **k: r)
            rec.op()
            for g, v in part.get_feature_contributions(X).items():
                got = lk(np.asarray(v, dtype=float))
                rec.state(kind, r, got)
                if kind not in ADD and np.abs(e1[g]).max() > 0.69:
                    continue
                close(got, r * e1[g], "%s: effect of the first cycle with rate %g" % (tag, r), 1e-7, 1e-10)
        rec.outcome("scaled")
    rec.outcome(kind)


def compare(m0, m1, X, what, rec):
    close(m0.predict(X), m1.predict(X), what, 1e-12, 1e-13)
    c0, c1 = m0.get_feature_contributions(X), m1.get_feature_contributions(X)
    for g in c1:
        close(c0[g], c1[g], what + ": effects", 1e-12, 1e-13)
        rec.state(g, np.asarray(c0[g], dtype=float))


def spaces(tier):
    return [
        Space("schedules", lambda: schedule_cases(tier), check_schedule, "all cycles of all iteration limits up to %d, 4 schedules" % (300 if tier == "quick" else 2000)),
        Space("application", lambda: use_cases(tier), check_use,
              "11 estimators x 4 structures x hierarchical or not x interleaved 3-row tables x limits 1, 2, 3, 5", warm=warm_basic),
    ]
