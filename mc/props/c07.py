"""C07: missing values use the learned missing effect, unseen values are neutral."""
import itertools

import numpy as np

from cyclic_boosting.common_smoothers import NoSmootherChoice
from mc.core import close, ensure
from mc.est import GENERIC, HM, MNL, O, C, REGS, U, frame, link_of, make, raw_predict, warm_basic
from mc.run import Space
from mc.tables import INF, NAN, build, tables, thin

ASSUMPTIONS = [
    "location model: its update is centred over all cells, so cells without training rows inside the trained range carry the centring constant; there only equality of all such missing rows is checked",
]
MISSING = [-1.0, -3.0, NAN, INF, -INF]
FL = {"u": U, "uh": U | HM, "um": U | MNL, "ch": C | HM, "cm": C | MNL, "om": O | MNL, "o": O, "none": None}


def is_missing(v):
    return (not np.isfinite(v)) or v < 0


def cases(tier):
    uni = [(a, b) for a in (-1.0, 0.0, 1.0) for b in (-1.0, 0.0, 1.0)]
    ts = list(tables(3, uni)) + (thin(list(tables(4, uni)), 3) if tier != "quick" else thin(list(tables(4, uni)), 16))
    fl = list(itertools.product(FL, ("u", "um", "cm", "ch")))
    out = []
    k = 0
    per = 48 if tier == "quick" else 10
    for kind in REGS + ["nbinomc", "expo"]:
        for fa, fb in fl:
            for t in thin(ts, per, k):
                out.append({"kind": kind, "fa": fa, "fb": fb, "t": t})
            k += 7
    for kind in GENERIC:
        for fa, fb in (("u", "um"), ("um", "u")):
            for t in thin(ts, 200 if tier == "quick" else 60, k):
                out.append({"kind": kind, "fa": fa, "fb": fb, "t": t})
            k += 7
    return out


def props_of(case):
    p = {}
    if FL[case["fa"]] is not None:
        p["a"] = FL[case["fa"]]
    p["b"] = FL[case["fb"]]
    return p


def check(case, rec):
    kind = case["kind"]
    X, y = build(kind, case["t"], c_col=False)
    groups = ["a", ["a", "b"]] if kind not in GENERIC else ["a"]
    kw = {"external": ["b"]} if kind == "expo" else {}
    props = props_of(case)
    gl = [("a",), ("a", "b")] if kind not in GENERIC else [("a",)]
    pr = props if len(props) == 2 else None
    if pr is None:
        # a group whose column has no property falls back to the default for the whole model
        pr = {"a": HM, "b": props["b"]}
    m = make(kind, groups, pr, maximal_iterations=2, **kw).fit(X, y)
    rec.op()
    q = list(itertools.product([0.0, 1.0, 2.0, 9.0] + MISSING, [0.0, 1.0, 3.0] + MISSING))
    Q = frame({"a": [r[0] for r in q], "b": [r[1] for r in q]}, kind)
    p = raw_predict(kind, m, Q)
    con = m.get_feature_contributions(Q)
    rec.op(2)
    ensure(np.isfinite(p).all(), lambda: "non-finite prediction for rows %s" % [q[i] for i in np.where(~np.isfinite(p))[0][:3]])
    link = link_of(kind)
    todo = [(g, " ".join(g), False) for g in gl]
    if kind == "expo":
        todo.append((("b",), "b_" + str([f.feature_type for f in m.features if f.feature_type is not None][0]), True))
    for g, key, ext in todo:
        c = np.log(con[key]) if ext else link(con[key])
        ensure(np.isfinite(c).all(), "non-finite contribution of %s" % key)
        cols = [("a", "b").index(x) for x in g]
        tr = [tuple(r[j] for j in cols) for r in case["t"]["rows"]]
        tr_missing = any(any(is_missing(v) for v in r) for r in tr)
        nmax = [max([r[j] for r in tr if not any(is_missing(v) for v in r)], default=-1) for j in range(len(cols))]
        name = {"a": case["fa"], "b": case["fb"]}
        mnl = any(name[x] in ("um", "cm", "om") for x in g)
        seen = {}
        miss_val = None
        unordered = all(name[x] in ("u", "uh", "um", "o", "om") for x in g)
        for i, r in enumerate(q):
            v = tuple(r[j] for j in cols)
            if any(is_missing(z) for z in v):
                if miss_val is None:
                    miss_val = c[i]
                ensure(abs(c[i] - miss_val) <= 1e-12, lambda: "group %s: missing pattern %s gets %r, other missing patterns %r" % (g, v, c[i], miss_val))
                continue
            # same members, same contribution, whatever the other columns contain
            if v in seen:
                ensure(abs(seen[v] - c[i]) <= 1e-12, lambda: "group %s: contribution of members %s depends on other columns" % (g, v))
            seen[v] = c[i]
            if any(z > n for z, n in zip(v, nmax)):
                ensure(abs(c[i]) <= 1e-12, lambda: "group %s: bin %s never seen in training (largest %s) contributes %r" % (g, v, nmax, c[i]))
            elif len(g) == 2 and v not in tr and unordered and kind != "location":
                ensure(abs(c[i]) <= 1e-12, lambda: "group %s: combination %s never seen in training contributes %r" % (g, v, c[i]))
        if mnl:
            ensure(abs(miss_val) <= 1e-12, lambda: "group %s does not learn missing values but they contribute %r" % (g, miss_val))
        elif not tr_missing and kind not in ("location",):
            ensure(abs(miss_val) <= tol0(kind, ext), lambda: "group %s: no missing value in training but missing contributes %r" % (g, miss_val))
        rec.outcome("%s mnl=%s trained_missing=%s" % (len(g), mnl, tr_missing))
    # every code of missing in training gives the same model
    for alt in (NAN, INF, -7.0):
        X2 = X.copy()
        for col in ("a", "b"):
            X2.loc[X2[col] < 0, col] = alt
        m2 = make(kind, groups, pr, maximal_iterations=2, **kw).fit(X2, y)
        close(raw_predict(kind, m2, Q), p, "missing coded as %r in training" % alt, 1e-9, 1e-10)
        rec.op(2)
        if kind in GENERIC:
            break
    rec.trace()
    rec.state(kind, p)


def tol0(kind, ext):
    # the priors' medians are one only up to the digits of the prior constants
    return 1e-3 if kind in ("poisson", "nbinom", "expo") else 1e-9


def extra_cases(tier):
    """Missing as its own bin: the learned effect is that of an ordinary bin."""
    uni = [(a, b) for a in (-1.0, 0.0, 1.0) for b in (0.0, 1.0)]
    ts = list(tables(3, uni)) + list(tables(4, uni))
    return [{"kind": k, "t": t} for i, k in enumerate(REGS) for t in thin(ts, 8 if tier == "quick" else 2, i)]


def check_extra(case, rec):
    kind = case["kind"]
    X, y = build(kind, case["t"], c_col=False)
    if (X["a"] < 0).all() or not (X["a"] < 0).any():
        X.loc[0, "a"] = 0.0 if (X["a"] < 0).all() else -1.0
    top = X["a"].max() + 1
    X2 = X.copy()
    X2.loc[X2["a"] < 0, "a"] = top
    kw = dict(maximal_iterations=3, smoother_choice=NoSmootherChoice())
    m1 = make(kind, ["a", "b"], {"a": U | HM, "b": U}, **kw).fit(X, y)
    m2 = make(kind, ["a", "b"], {"a": U | HM, "b": U}, **kw).fit(X2, y)
    close(raw_predict(kind, m1, X), raw_predict(kind, m2, X2), "missing values against an own bin (%s)" % X.values.tolist(), 1e-7, 1e-9)
    rec.op(4)
    rec.trace()
    rec.state(kind, raw_predict(kind, m1, X))


def spaces(tier):
    return [
        Space("patterns", lambda: cases(tier), check, "training tables over {-1,0,1}^2 (3-4 rows), 8x4 flag pairs, 13 estimators; 72 query rows with every missing code and unseen bins; 3 recodings of missing", warm=warm_basic),
        Space("own-bin", lambda: extra_cases(tier), check_extra, "all multisets of 3-4 rows (every 8th per estimator in quick): missing values against an explicit extra bin"),
    ]
