"""C25: meta smoothers only normalise, restrict and split."""
import itertools
import math
import pickle
import warnings

import numpy as np

from cyclic_boosting.smoothing import extrapolate, multidim, onedim
from cyclic_boosting.smoothing.base import AbstractBinSmoother
from cyclic_boosting.smoothing.meta_smoother import (
    NormalizationRegressionTypeSmoother,
    NormalizationSmoother,
    RegressionType,
    RegressionTypeSmoother,
    SectionSmoother,
)
from mc.core import close, ensure, raises
from mc.props.c24 import prior_value
from mc.run import Space
from mc.tables import thin

NAN = float("nan")
ASSUMPTIONS = ["Missing positions are only asked of a wrapper for discontinuous features; the models never ask the others."]
VALUES = [-1.0, 0.5, 2.0]
WEIGHTS = [0.0, 1.0, 3.0]
KINDS = ["discontinuous", "interpolating", "extrapolating"]


class Probe(AbstractBinSmoother):
    """A smoother that answers everywhere: a plane over the positions plus the mean of what it was given."""

    def fit(self, X, y):
        self.X_, self.y_ = X.copy(), y.copy()
        self.level_ = float(np.mean(y))
        return self

    def predict(self, X):
        k = self.X_.shape[1] - 2
        x = np.where(np.isfinite(X[:, :k]), X[:, :k], -7.0)
        return self.level_ + x.dot(np.array([0.25, 3.0, 11.0])[:k])


INNER1 = {
    "probe": Probe,
    "values": onedim.BinValuesSmoother,
    "mean": onedim.WeightedMeanSmoother,
    "isotonic": onedim.IsotonicRegressor,
    "ortho": onedim.OrthogonalPolynomialSmoother,
    "line": extrapolate.LinearExtrapolator,
}
INNERN = {"probe": Probe, "values": multidim.BinValuesSmoother, "mean": multidim.WeightedMeanSmoother}
SIZES = [(1,), (2,), (3,), (4,), (1, 2), (2, 1), (2, 2), (3, 2), (1, 2, 2)]


def cells_of(size):
    return np.array(list(itertools.product(*[range(v) for v in size])), dtype=float)


def cases(tier):
    out = []
    i = 0
    for size in SIZES:
        n = int(np.prod(size))
        per = 4 if tier == "quick" else 60
        for inner in INNER1 if len(size) == 1 else INNERN:
            if inner == "line" and n < 2:
                continue
            for wrap in ["norm"] + KINDS + ["both " + k for k in KINDS]:
                for w in itertools.product(WEIGHTS[: 2 if n > 4 else 3], repeat=n):
                    ys = list(itertools.product(VALUES, repeat=n))
                    for y in thin(ys, max(len(ys) * (3 ** max(n - 2, 0)) // (per * 9), 1), i):
                        out.append({"size": list(size), "inner": inner, "wrap": wrap, "w": list(w), "y": list(y)})
                    i += 1
    return out


def queries(size):
    axes = [[-3.0, -1.0, 0.0, 0.3, s - 1.0, s - 0.7, float(s), s + 2.0, NAN] for s in size]
    if len(size) > 1:
        axes = [[-1.0, 0.0, 1.0, s - 1.0, float(s), s + 2.0, NAN] for s in size]
    return np.array(list(itertools.product(*axes)))


def outside(kind, size, w, row):
    """Where the wrapped answer has to be withheld."""
    if kind == "extrapolating":
        return False
    if kind == "interpolating":
        return any(v < 0 or v > s - 0.5 for v, s in zip(row, size))
    if any(not math.isfinite(v) or v < 0 or np.rint(v) >= s for v, s in zip(row, size)):
        return True
    i = 0
    for v, s in zip(row, size):
        i = i * s + int(np.rint(v))
    return w[i] == 0


def check(case, rec):
    size = tuple(case["size"])
    w, y = np.array(case["w"]), np.array(case["y"])
    n = len(y)
    X = np.c_[cells_of(size), w, [[0.2, 1.0][i % 2] for i in range(n)]]
    q = queries(size)
    if case["inner"] not in ("probe", "values", "mean") or not case["wrap"].endswith("discontinuous"):
        q = q[np.isfinite(q).all(axis=1)]
    mk = (INNER1 if len(size) == 1 else INNERN)[case["inner"]]
    wrap = case["wrap"]
    kind = wrap.split()[-1] if wrap != "norm" else None
    normed = wrap.startswith(("norm", "both"))

    def make():
        if wrap == "norm":
            return NormalizationSmoother(mk())
        return (NormalizationRegressionTypeSmoother if normed else RegressionTypeSmoother)(mk(), RegressionType[kind])

    tag = "%s around %s on %s values %s weights %s" % (wrap, case["inner"], size, y, w)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        norm = float(np.sum(y * w) / np.sum(w)) if normed and np.sum(w) > 0 else 0.0
        plain = mk()
        plain.fit(X.copy(), y - norm)
        want = np.asarray(plain.predict(q.copy()), dtype=float) + norm
        if kind:
            want = np.where([outside(kind, size, w, r) for r in q], NAN, want)
        m = make()
        Xc, yc, qc = X.copy(), y.copy(), q.copy()
        m.fit(Xc, yc)
        got = m.predict(qc)
        rec.op()
        rec.trace()
        for i in range(len(q)):
            close([got[i]], [want[i]], tag + " at %s" % q[i], 1e-9, 1e-9)
        ensure((Xc == X).all() and (yc == y).all() and ((qc == q) | np.isnan(q)).all(), lambda: tag + ": modifies its input")
        rec.state(wrap, case["inner"], size, y, w)
        if case["inner"] == "probe":
            ensure((m.smoother.X_ == X).all(), lambda: tag + ": hands on a different table %s" % m.smoother.X_)
            close(m.smoother.y_, y - norm, tag + ": values handed on", 1e-12, 1e-12)
        # shifting everything shifts the answer
        if normed and w.sum() > 0:
            m2 = make()
            m2.fit(X.copy(), y + 4.0)
            close(m2.predict(q), want + 4.0, tag + ": after shifting the values by four", 1e-9, 1e-9)
        # refit on other data and back, one query row at a time, pickling
        m.fit(np.c_[cells_of([s + 1 for s in size]), np.ones(int(np.prod([s + 1 for s in size]))), np.ones(int(np.prod([s + 1 for s in size])))], np.arange(float(np.prod([s + 1 for s in size]))))
        m.fit(X.copy(), y.copy())
        close(m.predict(q), want, tag + ": refitted", 1e-9, 1e-9)
        if case["inner"] != "probe":
            close(pickle.loads(pickle.dumps(m)).predict(q), want, tag + ": pickled", 1e-9, 1e-9)
        rec.op(2)
    rec.outcome(wrap)


# --- sections and priors ----------------------------------------------------


def section_cases(tier):
    out = []
    i = 0
    for n in (1, 2, 3, 4):
        for split in (-1.0, 0.0, 0.9995, 1.0, 1.5, 2.0, 5.0):
            for lower, upper in [("probe", "mean"), ("mean", "probe"), ("isotonic", "ortho"), ("line", "isotonic")]:
                for repl in (None, NAN, 5.0):
                    for eps in (None, 0.001, 0.5):
                        for y in thin(list(itertools.product(VALUES, repeat=n)), 40 if tier == "quick" and n > 2 else 3 if n > 2 else 2, i):
                            out.append({"n": n, "split": split, "lower": lower, "upper": upper, "nan": repl, "eps": eps, "y": list(y)})
                        i += 1
    return out


def check_section(case, rec):
    n, split = case["n"], case["split"]
    y = np.array(case["y"])
    X = np.c_[np.arange(float(n)), np.ones(n), [[0.2, 1.0][i % 2] for i in range(n)]]
    q = np.array([[-2.0], [0.0], [1.0], [0.0], [1.2], [2.0], [n - 1.0], [n + 2.0]])
    eps = 0.001 if case["eps"] is None else case["eps"]
    kw = {}
    if case["nan"] is not None:
        kw["nan_representation"] = case["nan"]
    if case["eps"] is not None:
        kw["epsilon"] = case["eps"]
    repl = NAN if case["nan"] is None else case["nan"]
    tag = "sections %s" % case
    low = X[:, 0] <= split + eps
    if case["lower"] == "line" and low.sum() == 1:
        rec.outcome("a line needs two bins")
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = np.full(len(q), repl)
        for side, name in ((low, case["lower"]), (~low, case["upper"])):
            if side.any():
                s = INNER1[name]()
                s.fit(X[side], y[side])
                sel = (q[:, 0] <= split + eps) == bool(side is low)
                if sel.any():
                    want[sel] = s.predict(q[sel])
        m = SectionSmoother(split, INNER1[case["lower"]](), INNER1[case["upper"]](), **kw)
        ensure(isinstance(raises(lambda: m.predict(q)), ValueError), lambda: tag + ": predicts before any fit")
        m.fit(X.copy(), y.copy())
        close(m.predict(q), want, tag, 1e-9, 1e-9)
        rec.op()
        rec.trace()
        rec.state("section", n, split, y)
        # a refit forgets which side had data
        m.fit(X[~low] if (~low).any() and low.any() else X + 0.0, y[~low] if (~low).any() and low.any() else y)
        if (~low).any() and low.any():
            again = np.where(q[:, 0] <= split + eps, repl, want)
            close(m.predict(q), again, tag + ": refitted with the upper side only", 1e-9, 1e-9)
    rec.outcome("both sides" if low.any() and (~low).any() else "one side")


def prior_cases(tier):
    out = []
    for n in (1, 2, 3):
        for y in itertools.product(VALUES, repeat=n):
            for inner in ("values", "mean", "isotonic"):
                for prior in (0.0, 1.0, "array"):
                    for thr in (None, 0.5, 2.5):
                        out.append({"n": n, "y": list(y), "inner": inner, "prior": prior, "thr": thr})
    return out


def check_prior(case, rec):
    n = case["n"]
    y = np.array(case["y"])
    s = np.array([[0.2, 1.0][i % 2] for i in range(n)])
    X = np.c_[np.arange(float(n)), np.ones(n), s]
    prior = np.linspace(-1, 1, n) if case["prior"] == "array" else np.full(n, case["prior"])
    thr = 2.5 if case["thr"] is None else case["thr"]
    q = np.array([[v] for v in (-1.0, 0.0, 0.3, 1.0, 2.0, n - 1.0, float(n), NAN)])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        inner = INNER1[case["inner"]]()
        inner.fit(X.copy(), y.copy())
        base = inner.predict(X[:, [0]])
        want = [prior_value(v, u, p, thr) for v, u, p in zip(base, s, prior)]
        m = onedim.PriorExpectationMetaSmoother(INNER1[case["inner"]](), prior if case["prior"] == "array" else case["prior"], **({} if case["thr"] is None else {"threshold": case["thr"]}))
        m.fit(X.copy(), y.copy())
        got = m.predict(q)
        ref = [want[int(np.rint(v))] if math.isfinite(v) and v >= 0 and np.rint(v) < n else NAN for v in q[:, 0]]
        close(got, ref, "prior around %s" % case, 1e-9, 1e-9)
        rec.op()
        rec.trace()
        rec.state("prior", case)
    rec.outcome("prior")


def spaces(tier):
    from mc.props.c23 import warm

    return [
        Space("wrappers", lambda: cases(tier), check, "7 wrappers x wrapped smoothers (including one that answers everywhere) x 9 grid shapes in one to three dimensions x every weight pattern over {0,1,3} x varied values", warm=warm),
        Space("sections", lambda: section_cases(tier), check_section, "1 to 4 bins x 7 split points x 4 smoother pairs x 3 replacements x 3 tolerances", warm=warm),
        Space("priors", lambda: prior_cases(tier), check_prior, "every value pattern over 1 to 3 bins x 3 smoothers x 3 priors x 3 thresholds", warm=warm),
    ]
