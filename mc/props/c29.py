"""C29: interaction selection enumerates and ranks all interaction terms."""
import itertools
import logging
import math
import warnings

import numpy as np
import pandas as pd

from cyclic_boosting import flags
from cyclic_boosting.binning import BinNumberTransformer
from cyclic_boosting.interaction_selection import (
    build_binned_interaction_features,
    create_interactions,
    select_interaction_terms_anova,
)
from mc.core import ensure
from mc.run import Space
from mc.tables import thin

NAN = float("nan")
ASSUMPTIONS = ["No term is perfectly correlated with a regression target, where the statistic is infinite and rounding decides.", "Terms whose statistics agree to within 1e-6 may be selected in place of one another."]
U, O, C, HM = flags.IS_UNORDERED, flags.IS_ORDERED, flags.IS_CONTINUOUS, flags.HAS_MISSING


def candidate_cases(tier):
    return [{"n": n, "dim": d} for n in range(0, 7) for d in range(0, 6)]


def check_candidates(case, rec):
    names = ["f%d" % i for i in range(case["n"])]
    given = list(names)
    got = create_interactions(given, case["dim"])
    rec.op()
    rec.trace()
    want = set()
    for mask in range(2 ** len(names)):
        s = [n for i, n in enumerate(names) if mask >> i & 1]
        if 2 <= len(s) <= case["dim"]:
            want.add(frozenset(s))
    ensure(all(isinstance(t, tuple) for t in got), lambda: "terms are not tuples: %s" % got)
    ensure(len(got) == len(want) and {frozenset(t) for t in got} == want, lambda: "%s: interactions %s" % (case, got))
    ensure(all(list(t) == sorted(t, key=names.index) for t in got) and given == names, lambda: "%s: members are reordered in %s" % (case, got))
    rec.state("candidates", case)
    rec.outcome("candidates")


# --- flattened interaction features -----------------------------------------

TERMS = [("a", "b"), ("b", "a"), ("a", "c"), ("b", "c"), ("a", "b", "c"), ("c", "a", "b")]
PROPS = {"u": {"a": U, "b": U, "c": U}, "missing": {"a": U | HM, "b": O | HM, "c": U}, "continuous": {"a": C, "b": U, "c": C | HM}}


def build_cases(tier):
    out = []
    i = 0
    for props in PROPS:
        miss = props == "missing"
        vals = [1.0, 2.0, 3.0] + ([NAN] if miss else [])
        rows = list(itertools.product(vals, vals, [5.0, 7.0]))
        for n in (1, 2, 3):
            tables = list(itertools.combinations_with_replacement(range(len(rows)), n))
            for t in thin(tables, 1 if n < 3 else (25 if tier == "quick" else 3), i):
                out.append({"props": props, "rows": [list(rows[k]) for k in t], "bins": None})
            i += 1
        big = [list(rows[(7 * k + 3) % len(rows)]) for k in range(14)]
        for bins in (2, 3, 5, 100):
            out.append({"props": props, "rows": big, "bins": bins})
            out.append({"props": props, "rows": big[::-1], "bins": bins})
    return out


def present(p):
    return all(math.isfinite(v) and v >= 0 for v in p)


def cells(B, term):
    """Cell of every row: positions of its members, or None if one of them is missing; and the grid."""
    pos = [tuple(r) for r in B[list(term)].values]
    full = [p for p in pos if present(p)]
    grid = [int(max((p[k] for p in full), default=-1)) + 1 for k in range(len(term))]
    return [p if present(p) else None for p in pos], grid


def flat(B, term):
    pos, grid = cells(B, term)
    out = []
    for p in pos:
        if p is None:
            out.append(float(np.prod(grid)))
        else:
            v = 0
            for q, g in zip(p, grid):
                v = v * g + int(q)
            out.append(float(v))
    return out


def binned(X, props, bins):
    return BinNumberTransformer(n_bins=bins, feature_properties=props, inplace=False).fit_transform(X.copy())


def check_build(case, rec):
    logging.disable(logging.CRITICAL)
    props = PROPS[case["props"]]
    X = pd.DataFrame(case["rows"], columns=["a", "b", "c"], index=[(3 * i) % 17 + 4 for i in range(len(case["rows"]))])
    keep = X.copy()
    kw = {} if case["bins"] is None else {"number_of_bins": case["bins"]}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        B = binned(X, props, case["bins"] or 100)
        F = build_binned_interaction_features(X, list(TERMS), props, **kw)
        rec.op()
        rec.trace()
        ensure(len(F) == len(X) and list(F.columns) == TERMS, lambda: "%s: columns %s rows %d" % (case, list(F.columns), len(F)))
        for k, t in enumerate(TERMS):
            got = [float(v) for v in F.iloc[:, k]]
            pos, grid = cells(B, t)
            for i, j in itertools.combinations(range(len(X)), 2):
                ensure((got[i] == got[j]) == (pos[i] == pos[j]), lambda: "%s: term %s has %s and %s for cells %s and %s" % (case, t, got[i], got[j], pos[i], pos[j]))
            ensure(got == flat(B, t), lambda: "%s: term %s is %s instead of %s" % (case, t, got, flat(B, t)))
        # a term does not depend on the other terms asked for
        for k, t in enumerate(TERMS[:4]):
            alone = build_binned_interaction_features(X, [t], props, **kw)
            ensure([float(v) for v in alone.iloc[:, 0]] == [float(v) for v in F.iloc[:, k]], lambda: "%s: term %s alone differs" % (case, t))
        pd.testing.assert_frame_equal(X, keep)
    rec.state("build", case)
    rec.outcome(case["props"])


# --- selection --------------------------------------------------------------


def select_cases(tier):
    out = []
    i = 0
    rows = [(a, b, c, d) for a in (1.0, 2.0, 3.0) for b in (1.0, 2.0) for c in (0.0, 1.0) for d in (4.0, 5.0)]
    sizes = (5, 7, 9)
    for nf, dim in ((2, 2), (3, 2), (3, 3), (4, 2), (4, 3)):
        for n in sizes:
            for cls in (False, True):
                for shift in range(8 if tier == "quick" else 150):
                    step = [5, 7, 11, 13][shift % 4]
                    pick = [list(rows[(shift + step * k) % len(rows)][:nf]) for k in range(n)]
                    y = [float((k * (shift % 5 + 1) + shift) % (2 + shift % 3 // 2 if cls else 5)) for k in range(n)]
                    if len(set(y)) < 2:
                        y[0] = 1.0 - y[0]
                    out.append({"rows": pick, "dim": dim, "y": y, "cls": cls, "kind": ["u", "mixed"][i % 2]})
                    i += 1
    return out


def statistic(f, y, cls):
    f, y = np.array(f), np.array(y)
    n = len(f)
    if np.ptp(f) == 0:
        return -math.inf
    if not cls:
        r = np.corrcoef(f, y)[0, 1]
        return math.inf if abs(r) >= 1 - 1e-12 else r * r / (1 - r * r) * (n - 2)
    groups = [f[y == c] for c in sorted(set(y))]
    between = sum(len(g) * (g.mean() - f.mean()) ** 2 for g in groups) / (len(groups) - 1)
    within = sum(((g - g.mean()) ** 2).sum() for g in groups) / (n - len(groups))
    return math.inf if within < 1e-12 else between / within


def check_select(case, rec):
    logging.disable(logging.CRITICAL)
    names = ["p", "q", "r", "s"][: len(case["rows"][0])]
    X = pd.DataFrame(case["rows"], columns=names)
    props = {n: (U if case["kind"] == "u" or i % 2 else C) for i, n in enumerate(names)}
    y = np.array(case["y"])
    cand = create_interactions(names, case["dim"])
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        B = binned(X, props, 100)
        stats = {t: statistic(flat(B, t), y, case["cls"]) for t in cand}
        if not case["cls"] and math.inf in stats.values():
            rec.outcome("perfectly correlated term")
            return
        Xk, yk = X.copy(), y.copy()
        other = X.assign(zz=1.0)
        for k in range(1, len(cand) + 1):
            got = select_interaction_terms_anova(X, y, props, case["dim"], k, **({"classification": True} if case["cls"] else {}))
            rec.op()
            got = [tuple(t) for t in got]
            ensure(len(got) == k and len(set(got)) == k and set(got) <= set(cand), lambda: "%s: best %d are %s" % (case, k, got))
            worst = min(stats[t] for t in got)
            rest = [stats[t] for t in cand if t not in got]
            ensure(all(not r > worst + 1e-6 * (1 + abs(worst)) for r in rest), lambda: "%s: best %d are %s but statistics are %s" % (case, k, got, stats))
            ranked = sorted(stats.values(), reverse=True)
            clear = k == len(cand) or ranked[k - 1] > ranked[k] + 1e-6 * (1 + abs(ranked[k]))
            if clear:
                order = list(range(len(X)))[::-1]
                for what, args in (("reversed rows", (X.iloc[order], y[order])), ("an unrelated column", (other, y))):
                    again = select_interaction_terms_anova(args[0], args[1], props, case["dim"], k, classification=case["cls"])
                    rec.op()
                    ensure({tuple(t) for t in again} == set(got), lambda: "%s: with %s the best %d are %s instead of %s" % (case, what, k, again, got))
        rec.trace()
        pd.testing.assert_frame_equal(X, Xk)
        ensure((y == yk).all(), lambda: "target is modified")
    rec.state("select", case)
    rec.outcome("classification" if case["cls"] else "regression")


def spaces(tier):
    from mc.est import warm_basic

    return [
        Space("candidates", lambda: candidate_cases(tier), check_candidates, "up to six features, up to five dimensions"),
        Space("features", lambda: build_cases(tier), check_build, "all tables of one and two rows and many of three over 18 or 32 row types, six terms of two and three members, three flag settings, four bin numbers", warm=warm_basic),
        Space("selections", lambda: select_cases(tier), check_select, "tables of five to nine rows with two to four features, every number of selected terms, regression and classification with two and three classes", warm=warm_basic),
    ]
