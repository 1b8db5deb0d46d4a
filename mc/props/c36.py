"""C36: the loss that steers training is the documented loss of the current prediction."""
import itertools
import logging
import math
import warnings

import numpy as np

from cyclic_boosting.base import ConvergenceError
from cyclic_boosting.learning_rate import constant_learn_rate_one
from mc.core import close, ensure, raises
from mc.est import ALL, GENERIC, costs_abs, costs_logloss, costs_sq, make, raw_predict, warm_basic
from mc.run import Space
from mc.tables import PROPS, STRUCTS, build, tables, thin

ASSUMPTIONS = [
    "Weights are positive in sum; the background subtraction model has at least one target other than zero.",
    "The dispersion model does not use weights; a row of mean zero has a constant in place of its likelihood.",
]
QUANTILES = [0.5, 0.1, 0.9]
GAMMAS = [0.0, 0.5]


def reference(kind, pred, y, w, X=None, quantile=0.5, gamma=0.0, costs=None):
    """The documented loss, row by row."""
    rows = list(zip([float(v) for v in pred], [float(v) for v in y], [float(v) for v in w]))
    total = math.fsum(r[2] for r in rows)
    if kind == "nbinomc":
        s = []
        for (c, t, _), mu in zip(rows, X["mu"].values):
            if mu == 0:
                s.append(gamma * abs(c))
                continue
            p = min(1.0 / (1.0 + c * mu), 1.0 - 1e-8)
            n = mu * p / (1.0 - p)
            s.append(-(math.lgamma(n + t) - math.lgamma(t + 1) - math.lgamma(n) + n * math.log(p) + t * math.log(1.0 - p)) + gamma * abs(c))
        return math.fsum(s) / len(s)
    if kind == "gbs":
        total = math.fsum(r[2] for r in rows if r[1] != 0)
    if kind in ("mquant", "aquant"):
        return math.fsum(v * (quantile * (t - p) if t >= p else (1 - quantile) * (p - t)) for p, t, v in rows) / total
    if kind in ("mgen", "agen", "gclf"):
        one = {
            costs_sq: lambda p, t: (p - t) ** 2,
            costs_abs: lambda p, t: abs(p - t),
            costs_logloss: lambda p, t: -(t * math.log(min(max(p, 1e-9), 1 - 1e-9)) + (1 - t) * math.log(1 - min(max(p, 1e-9), 1 - 1e-9))),
        }[costs]
        return math.fsum(v * one(p, t) for p, t, v in rows) / total
    return math.fsum(v * (p - t) ** 2 for p, t, v in rows) / total


def settings(kind, i):
    if kind in ("mquant", "aquant"):
        return {"quantile": QUANTILES[i % 3]}
    if kind in ("mgen", "agen"):
        return {"costs": (costs_sq, costs_abs)[i % 2]}
    if kind == "gclf":
        return {"costs": costs_logloss}
    if kind == "nbinomc":
        return {"gamma": GAMMAS[i % 2], "bayes": i % 4 >= 2}
    return {}


# --- the loss of given predictions ------------------------------------------

DIRECT = [k for k in ALL if k != "nbinomc"]


def direct_cases(tier):
    out = []
    for kind in DIRECT:
        for i in range(3 if kind in ("mquant", "aquant") else 2 if kind in ("mgen", "agen") else 1):
            for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                for ys in itertools.product(range(3), repeat=n):
                    out.append({"kind": kind, "i": i, "y": list(ys)})
    return out


def check_direct(case, rec):
    kind, n = case["kind"], len(case["y"])
    cls = kind in ("classifier", "gclf")
    ys = [0.0, 1.0, 1.0] if cls else [0.0, 1.0, 4.0] if kind in ("poisson", "nbinom", "expo", "mquant", "mgen") else [-2.0, 0.0, 1.5]
    y = np.array([ys[k] for k in case["y"]])
    preds = [0.2, 0.5, 0.99] if cls else [0.5, 1.0, 7.0] if min(ys) >= 0 else [-3.0, 0.0, 1.5]
    kw = settings(kind, case["i"])
    m = make(kind, ["a"], {"a": 1}, **kw)
    for ps in itertools.product(preds, repeat=n):
        for ws in itertools.product([1.0, 0.5, 0.0, 20.0] if n < 3 else [1.0, 0.0, 20.0] if n < 4 else [1.0, 3.0], repeat=n):
            p, w = np.array(ps), np.array(ws)
            if w.sum() == 0 or (kind == "gbs" and (w * (y != 0)).sum() == 0):
                continue
            keep = p.copy(), y.copy(), w.copy()
            got = float(m.loss(p, y, w))
            rec.op()
            tag = "%s %s: loss of predictions %s for targets %s with weights %s" % (kind, sorted(kw), p, y, w)
            close(got, reference(kind, p, y, w, **{k: v for k, v in kw.items()}), tag, 1e-10, 1e-12)
            ensure(got >= 0, lambda: tag + ": negative")
            ensure(all((a == b).all() for a, b in zip(keep, (p, y, w))), lambda: tag + ": modifies its input")
    rec.trace()
    rec.state("direct", case)
    rec.outcome(kind)


def check_empty(case, rec):
    m = make(case["kind"], ["a"], {"a": 1})
    e = np.array([])
    rec.op()
    if case["kind"] in GENERIC:
        rec.outcome("empty")
        return
    err = raises(lambda: m.loss(e, e, e))
    ensure(isinstance(err, ValueError), lambda: "%s: loss of no rows: %r" % (case["kind"], err))
    rec.state("empty", case)
    rec.outcome("empty")


# --- the losses of a training -----------------------------------------------


class Tape(object):
    def __init__(self):
        self.records = []

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        self.records.append((iteration, np.array(prediction, dtype=float), np.array(weights, dtype=float), estimator_state["insample_loss"]))

    def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
        pass


WEIGHTS = [None, [1.0, 2.0, 0.5, 3.0], [40.0, 1.0, 0.0, 1.0]]


def training_cases(tier):
    q = tier == "quick"
    t3, t4 = list(tables(3)), list(tables(4, ny=3))
    out = []
    i = 0
    for kind in ALL:
        gen = kind in GENERIC
        for struct in STRUCTS:
            if gen and struct not in ("2x1d", "mixed"):
                continue
            for props in PROPS:
                for w in range(3):
                    if w and kind == "nbinomc":
                        continue
                    per = (6 if not gen else 2) * (1 if q else 12)
                    for t in thin(t3, len(t3) // per, 3 * i) + thin(t4, len(t4) // per, 7 * i):
                        out.append({"kind": kind, "struct": struct, "props": props, "t": t, "w": w, "i": i, "prior": i % 5 == 4 and kind not in ("gbs",), "zero": kind == "nbinomc" and i % 3 == 1})
                        i += 1
    return out


def check_training(case, rec):
    logging.disable(logging.CRITICAL)
    kind = case["kind"]
    X, y = build(kind, case["t"])
    n = len(X)
    if case["zero"]:
        X.loc[n - 2, "mu"] = 0.0
    w = np.ones(n)
    kw = settings(kind, case["i"])
    ref = dict(kw)
    ref.pop("bayes", None)
    if WEIGHTS[case["w"]] is not None:
        w = np.array(WEIGHTS[case["w"]][:n])
        X["w"] = w
        kw["weight_column"] = "w"
    if kind == "gbs" and (w * (y != 0)).sum() == 0:
        rec.outcome("no loss")
        return
    if case["prior"]:
        X["prior"] = [0.3, 0.8, 0.5, 0.9][:n]
        kw["prior_prediction_column"] = "prior"
    if kind == "expo":
        kw["external"] = ["b"]
    tag = "%s %s %s weights %s prior %s %s table %s" % (kind, STRUCTS[case["struct"]], case["props"], w, case["prior"], sorted(ref.items(), key=str), case["t"])
    tape = Tape()
    m = make(kind, STRUCTS[case["struct"]], PROPS[case["props"]], maximal_iterations=3, minimal_loss_change=-1e30, minimal_factor_change=-1.0, learn_rate=constant_learn_rate_one, observers=[tape], **kw)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            m.fit(X, y)
        except ConvergenceError:
            rec.outcome("diverging")
            return
        p = np.asarray(raw_predict(kind, m, X), dtype=float)
    rec.op()
    rec.trace()
    # the likelihood of small dispersions suffers from cancellation
    rough = 1e4 if kind == "nbinomc" else 1.0
    scale = rough * (1.0 + abs(reference(kind, p, y, w, X, **ref)))
    # the observers of a fitted model are private copies
    rows = [o for o in m.observers if hasattr(o, "records")][0].records
    ensure(len(rows) >= 4 and rows[0][0] == 0 and rows[-1][0] == -1, lambda: "%s: recorded cycles %s" % (tag, [r[0] for r in rows]))
    # what the fitted model and the observers report, up to the constant of rows without likelihood
    off = 0.0 if not case["zero"] else float(rows[0][3]) - reference(kind, rows[0][1], y, w, X, **ref)
    # the location model for counts does not answer with negative counts
    if kind != "locpoisson" or (rows[-1][1] >= 0).all():
        close(float(m.insample_loss_), off + reference(kind, p, y, w, X, **ref), tag + ": loss of the fitted model", 1e-7, 1e-8 * scale)
    for it, pred, weights, loss in rows:
        rec.state(kind, np.round(pred, 6), y, w)
        close(float(loss), off + reference(kind, pred, y, w, X, **ref), "%s: loss recorded in cycle %d" % (tag, it), 1e-9 * rough, 1e-10 * scale)
    close(float(m.initial_loss_), float(rows[0][3]), tag + ": initial loss", 1e-12, 1e-12)
    rec.outcome(kind)


def spaces(tier):
    return [
        Space("direct", lambda: direct_cases(tier), check_direct, "12 estimators (all quantiles and costs) x all vectors of up to 3 (thorough: 4) predictions, targets and weights over 3 x 3 x 3 values"),
        Space("empty", lambda: [{"kind": k} for k in DIRECT if k != "gbs"], check_empty, "no rows"),
        Space("trainings", lambda: training_cases(tier), check_training,
              "13 estimators x 6 structures x 4 property sets x 3 weightings x interleaved subsets of all 3- and 4-row tables, with and without priors; the loss of every cycle", warm=warm_basic, warm_in_child=True),
    ]
