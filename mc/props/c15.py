"""C15: learned effects are bounded and updates are damped."""
import itertools
import warnings

import numpy as np

from cyclic_boosting.base import ConvergenceError
from cyclic_boosting.learning_rate import constant_learn_rate_one
from mc.core import ensure
from mc.est import C, GENERIC, MNL, O, U, frame, make, warm_basic
from mc.props.c14 import Watch
from mc.run import Space
from mc.tables import STRUCTS, query, rows_universe, thin

ASSUMPTIONS = ["The bounds are claimed for trainings in which no cycle diverges; after a diverging cycle training resets or re-clips effects."]

PROPS = {
    "u": {"a": U, "b": U, "c": U},
    "c": {"a": C, "b": C, "c": C},
    "m": {"a": U | MNL, "b": U | MNL, "c": O},
}
LIMITS = {(False, False): (0.01, 1000.0), (False, True): (0.1, 100.0), (True, False): (0.05, 20.0), (True, True): (0.1, 5.0)}
TARGETS = {"mult": [0.0, 1.0, 1e6], "add": [-1e6, 0.5, 30.0]}
RATES = {
    "one": constant_learn_rate_one,
    "ramp": lambda it, mx, f=None: min(it / 3.0, 1.0),
    "big": lambda it, mx, f=None: 3.0,
}


def tables4(n):
    uni = rows_universe()
    return [list(map(list, r)) for r in itertools.combinations_with_replacement(uni, n)]


def cases(tier):
    q = tier == "quick"
    out = []
    i = 0
    for kind in ("poisson", "nbinom", "expo", "location", "mgen", "mquant"):
        ys = list(itertools.product(range(3), repeat=3))
        ys = [y for y in ys if len(set(y)) > 1]
        full = [(r, y) for r in tables4(3) for y in ys]
        gen = kind in GENERIC
        for struct in ("1d", "2d", "mixed", "rev", "2x1d"):
            if gen and struct not in ("1d", "2d", "mixed"):
                continue
            for props in PROPS:
                if gen and props != "u":
                    continue
                for rate in RATES:
                    if gen and rate == "ramp":
                        continue
                    for wt in (1.0, 1e4):
                        if gen and wt == 1.0:
                            continue
                        per = 3 if not gen else 1
                        for r, y in thin(full, len(full) // (per if q else per * 12), 7 * i):
                            out.append({"kind": kind, "struct": struct, "props": props, "rate": rate, "w": wt, "rows": r, "y": list(y)})
                        i += 1
    return out


def data(case):
    kind = case["kind"]
    rows = case["rows"]
    n = len(rows)
    X = frame({"a": [r[0] for r in rows], "b": [r[1] for r in rows], "c": [float(i % 2) for i in range(n)]}, kind)
    if kind == "expo":
        # strong reactions: prices far from one
        X["price"] = [2.0, 0.2, 3.0][:n]
    ts = TARGETS["add" if kind in ("location",) else "mult"]
    y = np.array([ts[k] for k in case["y"]])
    X["w"] = case["w"] * np.array([1.0, 2.0, 0.5])[:n]
    return X, y


def check(case, rec):
    kind = case["kind"]
    X, y = data(case)
    kw = dict(weight_column="w", minimal_factor_change=-1.0, minimal_loss_change=-1.0, learn_rate=RATES[case["rate"]])
    if kind == "expo":
        kw["external"] = ["b", ["a", "b"]]
    gs = STRUCTS[case["struct"]]
    n = 12 if kind not in GENERIC else 9
    if case["rate"] != "big" and kind in GENERIC:
        n = 8
    prev = None
    Q = query(kind, a=(-1, 0, 1), b=(-1, 0, 1), c=(0, 1))
    tag = "%s %s %s rate %s weights %g" % (kind, gs, case["props"], case["rate"], case["w"])
    reached = set()
    for k in range(1, n + 1):
        watch = Watch()
        m = make(kind, gs, PROPS[case["props"]], maximal_iterations=k, observers=[watch], **kw)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                m.fit(X, y)
            except ConvergenceError:
                rec.outcome("diverged")
                break
        rec.op()
        if any(l > 2 * watch.losses[0] for l in watch.losses):
            rec.outcome("diverged")
            break
        eff = {g: np.asarray(v, dtype=float) for g, v in m.get_feature_contributions(Q).items()}
        own = {g: np.asarray(v, dtype=float) for g, v in m.get_feature_contributions(X).items()}
        rec.state(kind, case["struct"], case["rate"], k, sorted((g, v) for g, v in eff.items()))
        for g, v in eff.items():
            if kind == "location":
                old = prev[1][g] if prev else np.zeros(len(X))
                upd = own[g] - old
                w = np.array(X["w"])
                names = g.split(" ")
                if any(PROPS[case["props"]][c] == U | MNL for c in names):
                    # missing cells are not learned and keep the neutral effect
                    w = np.where((X[names] < 0).any(axis=1), 0.0, w)
                s = np.abs(upd).max() + 1e-12
                if w.sum() > 0:
                    ensure(abs((w * upd).sum() / w.sum()) <= 1e-9 * max(s, np.abs(own[g]).max()) + 1e-10,
                           lambda: "%s: weighted mean of the update of %s in cycle %d is %r (update %s)" % (tag, g, k, (w * upd).sum() / w.sum(), upd))
                continue
            ext = g.endswith("external")
            multi = " " in g
            lo, hi = LIMITS[(ext, multi)]
            ensure((v >= lo * (1 - 1e-9)).all() and (v <= hi * (1 + 1e-9)).all(),
                   lambda: "%s: effect of %s after %d cycles ranges over %r..%r, limits %g..%g" % (tag, g, k, v.min(), v.max(), lo, hi))
            if abs(v.max() - hi) < 1e-6 * hi:
                reached.add("upper limit reached")
            if abs(v.min() - lo) < 1e-6 * lo:
                reached.add("lower limit reached")
            r = v / (prev[0][g] if prev else 1.0)
            ensure((r >= 0.5 - 1e-9).all() and (r <= 2 + 1e-9).all(),
                   lambda: "%s: cycle %d changes the effect of %s by %r..%r" % (tag, k, g, r.min(), r.max()))
        prev = (eff, own)
    rec.trace()
    for r in reached:
        rec.outcome(r)
    rec.outcome(kind)


def spaces(tier):
    return [
        Space("cycles", lambda: cases(tier), check,
              "6 estimators x 5 group structures x 3 property sets x 3 learning rates (up to 3) x 2 weight scales x interleaved subset of all 3-row tables with targets spanning 12 orders of magnitude; after each of 12 cycles",
              warm=warm_basic),
    ]
