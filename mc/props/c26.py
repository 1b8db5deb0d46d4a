"""C26: feature flags select the smoothing and survive conversion."""
import itertools
import logging
import warnings

import numpy as np

from cyclic_boosting import common_smoothers, flags
from cyclic_boosting.smoothing import extrapolate, multidim, onedim
from cyclic_boosting.smoothing.base import AbstractBinSmoother
from cyclic_boosting.smoothing.meta_smoother import (
    NormalizationRegressionTypeSmoother,
    NormalizationSmoother,
    RegressionType,
    RegressionTypeSmoother,
)
from mc import est
from mc.core import close, ensure, raises
from mc.run import Space
from mc.tables import thin

# the documented bits and what each name implies
BITS = {
    "IS_CONTINUOUS": {"c"},
    "IS_ORDERED": {"o"},
    "IS_UNORDERED": {"u"},
    "IS_MONOTONIC": {"c", "m"},
    "HAS_MISSING": {"n"},
    "MISSING_NOT_LEARNED": {"n", "l"},
    "USE_ORIGINAL": {"orig"},
    "CORR_TO_WIDTH": {"corr"},
    "IS_LINEAR": {"lin"},
    "IS_SEASONAL": {"sea"},
    "HAS_MAGIC_INT_MISSING": {"n", "magic"},
    "INCREASING": {"inc"},
    "DECREASING": {"dec"},
}
NAMES = list(BITS)
PREDICATES = {
    "is_continuous_set": {"c"},
    "is_ordered_set": {"o"},
    "is_unordered_set": {"u"},
    "is_monotonic_set": {"c", "m"},
    "has_missing_set": {"n"},
    "missing_not_learned_set": {"n", "l"},
    "has_magic_missing_set": {"n", "magic"},
    "is_linear_set": {"lin"},
    "is_seasonal_set": {"sea"},
    "increasing_set": {"inc"},
    "decreasing_set": {"dec"},
}


def value(names):
    v = 0
    for n in names:
        v |= getattr(flags, n)
    return v


def meaning(names):
    out = set()
    for n in names:
        out |= BITS[n]
    return out


def subsets():
    for r in range(len(NAMES) + 1):
        yield from itertools.combinations(NAMES, r)


def consistent(m):
    return len(m & {"c", "o", "u"}) == 1 and not {"inc", "dec"} <= m


def regression_type(m):
    if "lin" in m:
        return RegressionType.extrapolating
    if "sea" in m or "c" in m:
        return RegressionType.interpolating
    return RegressionType.discontinuous


def weakest(types):
    for t in (RegressionType.discontinuous, RegressionType.interpolating):
        if t in types:
            return t
    return RegressionType.extrapolating


def raw(m, normalised):
    if "lin" in m:
        return extrapolate.LinearExtrapolator()
    if "sea" in m:
        return onedim.SeasonalSmoother(offset_tozero=not normalised)
    if "m" in m and "c" in m:
        return onedim.IsotonicRegressor(increasing=True if "inc" in m else False if "dec" in m else "auto")
    if "c" in m:
        return onedim.OrthogonalPolynomialSmoother()
    if "o" in m:
        return onedim.WeightedMeanSmootherNeighbors()
    return onedim.WeightedMeanSmoother(prior_prediction=0)


def wrapped(smoother, normalised, reg):
    if normalised:
        return NormalizationSmoother(smoother) if reg is None else NormalizationRegressionTypeSmoother(smoother, reg)
    return smoother if reg is None else RegressionTypeSmoother(smoother, reg)


# --- flags and their text ---------------------------------------------------


def flag_cases(tier):
    return [{"names": list(s)} for s in subsets()]


def check_flags(case, rec):
    names = case["names"]
    v, m = value(names), meaning(names)
    rec.op()
    rec.trace()
    text = flags.flags_to_string(v)
    shown = [t.strip() for t in text.split("|")] if text else []
    ensure(set(shown) == {n for n in NAMES if BITS[n] <= m} and len(shown) == len(set(shown)), lambda: "text of %s is %r" % (names, text))
    ensure(value(shown) == v, lambda: "text %r of %s does not determine the flags" % (text, names))
    ensure(flags.flags_to_string((v, flags.IS_ORDERED, v)) == (text, "IS_ORDERED", text), lambda: "text of a group of %s" % names)
    for p, need in PREDICATES.items():
        ensure(bool(getattr(flags, p)(v)) == (need <= m), lambda: "%s of %s" % (p, names))
    bad = raises(lambda: flags.check_flags_consistency(v))
    ensure((bad is None) == consistent(m) and (bad is None or isinstance(bad, ValueError)), lambda: "%s: consistency verdict %r" % (names, bad))
    ensure(common_smoothers.determine_reg_type(("x",), v, None) is regression_type(m), lambda: "%s: regression type" % names)
    ensure(common_smoothers.determine_reg_type(("x",), (v,), None) is regression_type(m), lambda: "%s: regression type of a group of one" % names)
    extra = v | 1 << 20
    ensure(isinstance(raises(lambda: flags.flags_to_string(extra)), ValueError), lambda: "an unknown flag next to %s is accepted" % names)
    props = {"x": v, "y": flags.IS_ORDERED}
    ensure(flags.read_feature_property(props, "x", 99) == (v if v is not None else 99), lambda: "%s: property of x" % names)
    ensure(flags.read_feature_property(props, ("y", "x", "z"), 99) == (flags.IS_ORDERED, v, 99), lambda: "%s: properties of a group" % names)
    ensure(flags.read_feature_property(None, ("y", "x"), v) == (v, v), lambda: "%s: default" % names)
    rec.state("flags", tuple(sorted(m)))
    rec.outcome("consistent" if consistent(m) else "rejected")


# --- the smoother behind the flags ------------------------------------------

XB = np.array([[0.0, 3.0, 0.3], [1.0, 1.0, 0.5], [2.0, 0.0, 1.0], [3.0, 2.0, 0.4], [4.0, 5.0, 0.2]])
SHAPES = [np.array([0.1, 0.9, -0.2, 1.3, 0.4]), np.array([1.0, 0.2, 0.0, -0.9, -0.3])]
Q1 = np.array([[v] for v in (-1.0, 0.0, 0.4, 1.0, 2.0, 3.0, 4.0, 5.0, 8.0)])
X2 = np.c_[list(itertools.product(range(2), range(3))), [1.0, 2.0, 0.0, 3.0, 1.0, 1.0], [0.3, 0.5, 1.0, 0.4, 0.3, 0.2]]
Q2 = np.array(list(itertools.product([0.0, 1.0, 2.0], [-1.0, 0.0, 1.0, 2.0, 4.0])))
SHAPES2 = [np.array([0.1, 0.9, -0.2, 1.3, 0.4, 0.0]), np.array([1.0, 0.2, 0.0, -0.9, -0.3, 2.0])]
X3 = np.c_[list(itertools.product(range(2), repeat=3)), [1.0, 2.0, 0.0, 3.0, 1.0, 1.0, 0.0, 2.0], [0.3, 0.5, 1.0, 0.4, 0.3, 0.2, 1.0, 0.6]]
Q3 = np.array(list(itertools.product([0.0, 1.0, 2.0], repeat=3)))
SHAPES3 = [np.array([0.1, 0.9, -0.2, 1.3, 0.4, 0.0, 0.7, -1.0])]


class Plane(AbstractBinSmoother):
    """Has an answer everywhere, so that only the regression type limits it."""

    def fit(self, X_for_smoother, y):
        self.offset_ = float(np.mean(y))
        return self

    def predict(self, X):
        return self.offset_ + X.sum(axis=1)


def behave(s, X, shapes, q):
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for y in shapes:
            s.fit(X.copy(), y.copy())
            out.append(np.asarray(s.predict(q.copy()), dtype=float))
    return np.concatenate(out)


_memo = {}


def remembered(key, fn):
    if key not in _memo:
        _memo[key] = fn()
    return _memo[key]


class SubGroupBy(common_smoothers.SmootherChoiceGroupBy):
    pass


CHOICES = {
    "mean": common_smoothers.SmootherChoiceWeightedMean,
    "groupby": common_smoothers.SmootherChoiceGroupBy,
    "groupby subclass": SubGroupBy,
    "none": common_smoothers.NoSmootherChoice,
}


def expect(choice, ms, normalised, regtype, explicit):
    """The wrapped smoother the documentation promises for a group with these flags."""
    multi = len(ms) > 1
    reg = weakest([regression_type(m) for m in ms]) if regtype else None
    inner_reg = regression_type(ms[-1]) if regtype else None
    if explicit == "open" and choice != "none":
        return wrapped(Plane(), normalised, inner_reg if choice.startswith("groupby") else reg)
    if choice == "none":
        return wrapped(multidim.BinValuesSmoother() if multi else onedim.BinValuesSmoother(), normalised, reg)
    group = choice.startswith("groupby")
    if explicit == "group":
        s = multidim.BinValuesSmoother() if multi else onedim.BinValuesSmoother()
        return wrapped(s, normalised, inner_reg if group else reg)
    if not multi:
        return wrapped(raw(ms[0], normalised), normalised, reg)
    if group:
        inner = onedim.BinValuesSmoother() if explicit == "member" else raw(ms[-1], normalised)
        return multidim.GroupBySmootherCB(wrapped(inner, normalised, inner_reg), n_dim=len(ms))
    return wrapped(multidim.WeightedMeanSmoother(prior_prediction=0), normalised, reg)


BASIC = [("IS_UNORDERED",), ("IS_ORDERED", "HAS_MISSING"), ("IS_CONTINUOUS",), ("IS_CONTINUOUS", "IS_LINEAR"), ("IS_CONTINUOUS", "IS_SEASONAL"), ("IS_MONOTONIC",), ("IS_MONOTONIC", "INCREASING"), ("IS_MONOTONIC", "DECREASING", "MISSING_NOT_LEARNED"), ("IS_UNORDERED", "IS_LINEAR"), ("HAS_MISSING",)]


def choice_cases(tier):
    out = []
    i = 0
    for choice in CHOICES:
        for normalised, regtype in itertools.product((True, False), repeat=2):
            if choice == "groupby subclass" and not (normalised and regtype):
                continue
            good = [s for s in subsets() if consistent(meaning(s))]
            for s in thin(good, 1 if (normalised and regtype and choice == "mean") or tier != "quick" else 7, i):
                out.append({"choice": choice, "norm": normalised, "reg": regtype, "group": [list(s)], "explicit": None})
            i += 1
            for a in BASIC:
                for explicit in (None, "group"):
                    out.append({"choice": choice, "norm": normalised, "reg": regtype, "group": [list(a)], "explicit": explicit})
            for a, b in itertools.product(BASIC, repeat=2):
                for explicit in (None, "group", "member", "open"):
                    out.append({"choice": choice, "norm": normalised, "reg": regtype, "group": [list(a), list(b)], "explicit": explicit})
            for g in itertools.product(BASIC[:6], repeat=3):
                out.append({"choice": choice, "norm": normalised, "reg": regtype, "group": [list(a) for a in g], "explicit": "open"})
    return out


def check_choice(case, rec):
    logging.disable(logging.CRITICAL)
    group = [tuple(g) for g in case["group"]]
    ms = [meaning(g) for g in group]
    names = ("x", "z") if len(group) == 2 else ("x", "z", "v") if len(group) == 3 else ("z",)
    explicit = None
    if case["explicit"] == "group":
        explicit = {names: multidim.BinValuesSmoother() if len(group) > 1 else onedim.BinValuesSmoother(), ("other",): onedim.WeightedMeanSmoother()}
    elif case["explicit"] == "open":
        explicit = {names: Plane()}
    elif case["explicit"] == "member":
        explicit = {(names[-1],): onedim.BinValuesSmoother()}
    X, shapes, q = {1: (XB, SHAPES, Q1), 2: (X2, SHAPES2, Q2), 3: (X3, SHAPES3, Q3)}[len(group)]
    key = (case["choice"], tuple(tuple(sorted(m)) for m in ms), case["norm"], case["reg"], case["explicit"])
    want = remembered(key, lambda: behave(expect(case["choice"], ms, case["norm"], case["reg"], case["explicit"]), X, shapes, q))
    ch = CHOICES[case["choice"]](use_regression_type=case["reg"], use_normalization=case["norm"], explicit_smoothers=explicit)
    got = behave(ch.choice_fct(names, tuple(value(g) for g in group), None), X, shapes, q)
    rec.op()
    rec.trace()
    close(got, want, "smoother chosen for %s" % case, 1e-9, 1e-9)
    rec.state("choice", key)
    rec.outcome(case["choice"] + (" explicit " + case["explicit"] if case["explicit"] else ""))


def check_refused(case, rec):
    bad = case["bad"]
    sm = {"string key": {"x": onedim.BinValuesSmoother()}, "number in key": {("x", 1): onedim.BinValuesSmoother()}, "class": {("x",): onedim.BinValuesSmoother}, "no smoother": {("x",): 3}}[bad]
    for cls in (common_smoothers.SmootherChoiceWeightedMean, common_smoothers.SmootherChoiceGroupBy):
        rec.op()
        ensure(isinstance(raises(lambda: cls(explicit_smoothers=sm)), ValueError), lambda: "explicit smoothers with %s are accepted" % bad)
    rec.state("refused", bad)
    rec.outcome("refused")


# --- the fitted model -------------------------------------------------------


def model_cases(tier):
    out = []
    for name in ("poisson", "location", "classifier") if tier == "quick" else ("poisson", "location", "classifier", "locpoisson", "nbinom"):
        for a in BASIC:
            for b in [BASIC[0], BASIC[2], BASIC[6]] if tier == "quick" else BASIC:
                for order in (0, 1):
                    out.append({"est": name, "x": list(a), "z": list(b), "order": order})
    return out


def check_model(case, rec):
    logging.disable(logging.CRITICAL)
    import pandas as pd

    X = pd.DataFrame({"x": [0.0, 1.0, 2.0, 3.0, 4.0, 0.0, 1.0, 2.0, 3.0, 4.0], "z": [0.0, 1.0, 2.0, 0.0, 1.0, 2.0, 0.0, 1.0, 2.0, 1.0]})
    y = np.array([1.0, 3.0, 2.0, 5.0, 4.0, 2.0, 1.0, 6.0, 3.0, 2.0])
    if case["est"] == "classifier":
        y = np.array([0.0, 1.0, 0.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0, 0.0])
    props = {"x": value(case["x"]), "z": value(case["z"])}
    groups = ["x", "z"] if case["order"] == 0 else ["z", "x"]
    ex = {("x",): raw(meaning(case["x"]), True), ("z",): raw(meaning(case["z"]), True)}
    q = pd.DataFrame(list(itertools.product([0.0, 1.0, 2.0, 3.0, 4.0, 7.0], [0.0, 1.0, 2.0, 5.0])), columns=["x", "z"])
    res = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for ch in (None, common_smoothers.SmootherChoiceWeightedMean(explicit_smoothers=ex)):
            m = est.make(case["est"], groups, props, smoother_choice=ch, maximal_iterations=3)
            m.fit(X.copy(), y.copy())
            res.append(est.raw_predict(case["est"], m, q))
            rec.op()
    rec.trace()
    close(res[0], res[1], "model with flags %s against explicit smoothers" % case, 1e-9, 1e-9)
    for f in ("x", "z"):
        m_ = meaning(case[f])
        if "m" in m_ and not m_ & {"lin", "sea"} and m_ & {"inc", "dec"}:
            inside = q[(q["x"] <= 4) & (q["z"] <= 2)]
            r = np.asarray(res[0])[inside.index]
            for _, part in inside.assign(r=r).groupby("z" if f == "x" else "x"):
                d = np.diff(part.sort_values(f)["r"].values)
                ensure((d >= -1e-9).all() if "inc" in m_ else (d <= 1e-9).all(), lambda: "%s: predictions are not monotonic in %s: %s" % (case, f, part))
    rec.state("model", case)
    rec.outcome(case["est"])


def spaces(tier):
    return [
        Space("flags", lambda: flag_cases(tier), check_flags, "all 2^13 sets of named flags: text, predicates, consistency, regression type, lookup with defaults"),
        Space("choices", lambda: choice_cases(tier), check_choice, "4 smoother choices x normalisation x regression type x all consistent flag combinations (single features) and all pairs of 10 and triples of 6 typical combinations (groups) x explicit smoothers", warm=est.warm_basic, chunk=32),
        Space("refused", lambda: [{"bad": b} for b in ("string key", "number in key", "class", "no smoother")], check_refused, "malformed explicit smoothers"),
        Space("models", lambda: model_cases(tier), check_model, "fitted models with two features over all pairs of typical flag combinations against explicit smoothers, both feature orders", warm=est.warm_basic),
    ]
