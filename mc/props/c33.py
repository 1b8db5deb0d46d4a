"""C33: prior predictions are honoured row by row."""
import functools
import itertools
import logging
import math
import warnings

import numpy as np
import pandas as pd

from cyclic_boosting.utils import ConvergenceError
from mc import est
from mc.core import close, ensure, is_close
from mc.est import ADD, C, GENERIC, HM, LOGIT, U
from mc.reference import link, unlink
from mc.run import Space
from mc.tables import thin

ASSUMPTIONS = ["Quantile and dispersion models take any minimiser of a flat loss, so rescaled priors are only compared through the base values.", "Prior columns whose weighted mean has no image under the link are only required to give finite predictions."]
NAN, INF = float("nan"), float("inf")
FEATURES = {"a": [0.0, 1.0, 0.0, 1.0], "b": [0.0, 0.0, 1.0, NAN]}
WEIGHTS = {"equal": [1.0, 1.0, 1.0, 1.0], "uneven": [1.0, 3.0, 0.5, 2.0], "zero": [1.0, 0.0, 2.0, 1.0]}
KINDS = ["poisson", "nbinom", "location", "locpoisson", "classifier", "expo", "nbinomc", "mquant", "aquant", "mgen", "agen", "gclf"]

FLAT = ("nbinomc", "mquant", "aquant")  # the loss has flat minima or a grid of candidates


def alphabet(kind):
    if kind in ADD:
        return [-2.0, 0.0, 3.5, NAN, INF]
    if kind in LOGIT or kind == "nbinomc":
        return [0.2, 0.7, 0.0, 1.0, NAN]
    return [0.5, 3.0, 0.0, NAN, INF, -1.0]


def target(kind, v=0):
    if kind in ("classifier", "gclf"):
        return np.array([[1.0, 0.0, 1.0, 0.0], [0.0, 0.0, 1.0, 1.0]][v])
    if kind in ("location", "aquant", "agen"):
        return np.array([[-2.0, 0.5, 3.0, 1.0], [4.0, -1.0, -1.0, 0.0]][v])
    return np.array([[2.0, 0.0, 5.0, 1.0], [1.0, 1.0, 3.0, 0.0]][v])


def train_table(kind, prior, weights):
    d = dict(FEATURES)
    d["w"] = WEIGHTS[weights]
    if prior is not None:
        d["p"] = list(prior)
    d["price"], d["mu"] = [0.6, 1.0, 0.8, 0.9], [2.0, 3.0, 1.0, 2.5]
    return pd.DataFrame(d)


def query_table(kind, prior):
    rows = list(itertools.product((0.0, 1.0, NAN), (0.0, 1.0), prior))
    d = {"a": [r[0] for r in rows], "b": [r[1] for r in rows], "w": 1.0, "p": [r[2] for r in rows], "price": 1.0, "mu": 2.0}
    return pd.DataFrame(d)


def build(kind, prior, iterations=2, **kw):
    kw["maximal_iterations"] = iterations
    if prior:
        kw["prior_prediction_column"] = "p"
    if kind != "nbinomc":
        kw["weight_column"] = "w"
    if kind == "expo":
        return est.make(kind, ["a", ["a", "b"]], {"a": C | HM, "b": U | HM}, external=["b"], **kw)
    return est.make(kind, ["a", ["a", "b"]], {"a": C | HM, "b": U | HM}, **kw)


def fit(kind, prior, weights, v, iterations=2, **kw):
    logging.disable(logging.CRITICAL)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            return build(kind, prior is not None, iterations, **kw).fit(train_table(kind, prior, weights), target(kind, v))
        except ConvergenceError:
            return None


def predict(kind, m, Q):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return np.asarray(est.raw_predict(kind, m, Q.copy()), dtype=float)


def on_link(kind, p):
    if kind == "nbinomc":
        return math.log(p / (1 - p))
    return link(kind, p)


def inverse(kind, v):
    if kind == "nbinomc":
        return 1 / (1 + math.exp(-v))
    if kind == "locpoisson":
        return max(v, 0.0)
    return unlink(kind, v)


def effects(kind, m, Q):
    """Sum of the effects of a row at neutral price."""
    with np.errstate(all="ignore"):
        con = m.get_feature_contributions(Q.copy())
    keys = [k for k in con if not k.endswith("_external")]
    ensure(len(keys) == 2, lambda: "contributions %s" % list(con))
    total = np.zeros(len(Q))
    for k in keys:
        c = np.asarray(con[k], dtype=float)
        total += [on_link(kind, v) for v in c]
    return total


@functools.lru_cache(None)
def scale(kind, weights, v):
    """Global scale on the link scale, read off a model without prior."""
    if kind == "nbinomc":
        return 0.0
    m = fit(kind, None, weights, v, 1)
    Q = query_table(kind, [1.0])
    p = predict(kind, m, Q)
    base = np.array([on_link(kind, x) for x in p]) - effects(kind, m, Q)
    ensure(np.ptp(base) < 1e-9, lambda: "%s: base values %s without a prior" % (kind, base))
    return float(base[0])


def valid(kind, p):
    if not math.isfinite(p):
        return False
    if kind in ADD:
        return True
    if kind in LOGIT or kind == "nbinomc":
        return 0 < p < 1
    return p > 0


def offset(kind, prior, weights, v):
    """The shift of all priors, or None when their mean has no link value."""
    if kind == "nbinomc":
        return 0.0
    w = WEIGHTS[weights]
    f = [i for i in range(len(prior)) if math.isfinite(prior[i])]
    if sum(w[i] for i in f) == 0:
        return None
    mean = sum(w[i] * prior[i] for i in f) / sum(w[i] for i in f)
    return scale(kind, weights, v) - on_link(kind, mean) if valid(kind, mean) else None


def base_cases(tier):
    out = []
    k = 0
    for i, kind in enumerate(KINDS):
        full = list(itertools.product(alphabet(kind), repeat=4))
        step = {"quick": 40 if kind in ("mquant", "aquant") else 14 if kind in GENERIC else 3, "thorough": 3 if kind in ("mquant", "aquant") else 1}[tier]
        for weights in WEIGHTS:
            if kind == "nbinomc" and weights != "equal":
                continue
            for prior in thin(full, step, k % step):
                out.append({"kind": kind, "prior": [repr(x) for x in prior], "weights": weights, "v": k % 2})
            k += 1
    return out


def check_base(case, rec):
    kind, weights, v = case["kind"], case["weights"], case["v"]
    prior = [float(x) for x in case["prior"]]
    m = fit(kind, prior, weights, v)
    if m is None:
        rec.outcome("diverged")
        return
    Q = query_table(kind, alphabet(kind))
    p = predict(kind, m, Q)
    rec.op(2)
    rec.state(kind, prior, weights, v)
    tag = "%s: training priors %s with %s weights" % (kind, prior, weights)
    lo = 0.0 if kind not in ADD else -INF
    ensure(np.isfinite(p).all() and (p >= lo).all(), lambda: "%s: predictions %s" % (tag, p))
    off = offset(kind, prior, weights, v)
    if off is None:
        rec.outcome("no link mean")
        return
    eff = effects(kind, m, Q)
    g = scale(kind, weights, v)
    want = []
    for q, e in zip(Q["p"], eff):
        want.append(inverse(kind, (on_link(kind, q) + off if valid(kind, q) else g) + e))
    close(p, want, tag + ": predictions", 1e-9, 1e-12)
    # scoring the training rows uses their own priors
    T = train_table(kind, prior, weights)
    T["price"] = 1.0
    pt = predict(kind, m, T)
    et = effects(kind, m, T)
    want = [inverse(kind, (on_link(kind, q) + off if valid(kind, q) else g) + e) for q, e in zip(prior, et)]
    close(pt, want, tag + ": predictions of the training rows", 1e-9, 1e-12)
    rec.trace()
    rec.outcome("%s/%s" % (kind, "invalid" if any(not valid(kind, q) for q in prior) else "valid"))


def scaling_cases(tier):
    out = []
    k = 0
    for kind in KINDS:
        if kind in LOGIT or kind in FLAT:
            continue
        a = [-2.0, 0.0, 3.5, NAN] if kind in ADD else [0.5, 3.0, NAN, 0.0]
        full = list(itertools.product(a, repeat=4))
        step = {"quick": 12 if kind in GENERIC else 2, "thorough": 1}[tier]
        for by in ([-7.0, 0.25, 40.0] if kind in ADD else [0.1, 3.0, 500.0]):
            for prior in thin(full, step, k % step):
                out.append({"kind": kind, "prior": [repr(x) for x in prior], "by": by, "weights": list(WEIGHTS)[k % 3], "v": k % 2})
            k += 1
    return out


def check_scaling(case, rec):
    kind, weights, v, by = case["kind"], case["weights"], case["v"], case["by"]
    prior = [float(x) for x in case["prior"]]
    if offset(kind, prior, weights, v) is None:
        rec.outcome("no link mean")
        return
    move = (lambda x: x + by) if kind in ADD else (lambda x: x * by)
    q = [-1.0, 2.0, NAN, 0.5] if kind in ADD else [0.3, 2.0, NAN, 0.0]
    m1, m2 = fit(kind, prior, weights, v, 3), fit(kind, [move(x) for x in prior], weights, v, 3)
    rec.op(2)
    rec.state(kind, prior, by, weights, v)
    if m1 is None or m2 is None:
        ensure(m1 is m2, lambda: "%s: priors %s diverge before or after moving by %s only" % (kind, prior, by))
        rec.outcome("diverged")
        return
    p1 = predict(kind, m1, query_table(kind, q))
    p2 = predict(kind, m2, query_table(kind, [move(x) for x in q]))
    tol = 1e-4 if kind in GENERIC else 1e-7
    close(p2, p1, "%s: priors %s %s by %s" % (kind, prior, "moved" if kind in ADD else "multiplied", by), tol, tol * 1e-3)
    rec.trace()
    rec.outcome(kind)


def constant_cases(tier):
    out = []
    for kind in KINDS:
        if kind in FLAT:
            continue
        for weights in WEIGHTS:
            for v in (0, 1):
                for p in [x for x in alphabet(kind) if valid(kind, x)]:
                    if kind in GENERIC and tier == "quick" and (v or weights == "zero"):
                        continue
                    out.append({"kind": kind, "p": p, "weights": weights, "v": v})
    return out


def check_constant(case, rec):
    """A prior without information changes nothing, nor does one that is missing everywhere at prediction time."""
    kind, weights, v = case["kind"], case["weights"], case["v"]
    m1, m0 = fit(kind, [case["p"]] * 4, weights, v, 3), fit(kind, None, weights, v, 3)
    Q = query_table(kind, [case["p"], NAN])
    rec.op(2)
    rec.state(kind, case["p"], weights, v)
    tol = 1e-4 if kind in GENERIC else 1e-8
    close(predict(kind, m1, Q), predict(kind, m0, Q), "%s: constant prior %s" % (kind, case["p"]), tol, tol * 1e-3)
    rec.trace()
    rec.outcome(kind)


def spaces(tier):
    return [
        Space("base", lambda: base_cases(tier), check_base, "12 estimators x prior columns of 4 rows over 5 or 6 values (valid, zero, negative, missing, infinite; deterministic share in quick) x 3 weightings; 30-36 query rows over all priors", warm=est.warm_basic, warm_in_child=True),
        Space("scaling", lambda: scaling_cases(tier), check_scaling, "multiplicative and additive estimators x prior columns of 4 rows over 4 values x 3 constants"),
        Space("constant", lambda: constant_cases(tier), check_constant, "9 estimators x constant priors x 3 weightings x 2 targets against no prior"),
    ]
