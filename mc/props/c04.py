"""C04: prediction = base + contributions."""
import itertools

import numpy as np
import pandas as pd

from cyclic_boosting.utils import ConvergenceError
from mc.core import close, ensure
from mc.est import GENERIC, REGS, U, link_of, make, raw_predict, unlink_of, warm_basic
from mc.run import Space
from mc.tables import INF, NAN, PROPS, STRUCTS, build, query, tables, thin

ASSUMPTIONS = [
    "bin numbers are whole numbers; external column positive or missing",
    "comparison in link space with relative tolerance 1e-7 (probabilities near 0 or 1 lose digits)",
]


def est_cases(tier):
    base = list(tables(3)) + (thin(list(tables(4)), 4) if tier == "quick" else list(tables(4)) + thin(list(tables(5)), 7))
    out = []
    k = 0
    for kind in REGS + ["expo", "nbinomc"]:
        for sname in STRUCTS:
            for prior in ("none", "prior"):
                if kind == "gbs" and prior == "prior":
                    continue
                per = 24 if tier == "quick" else 5
                for t in thin(base, per, k):
                    out.append({"kind": kind, "struct": sname, "prior": prior, "props": ["u", "c", "o", "m"][k % 4], "t": t})
                k += 1
    for kind in GENERIC:
        for sname in ("1d", "mixed"):
            for t in thin(base, 150 if tier == "quick" else 40, k):
                out.append({"kind": kind, "struct": sname, "prior": ["none", "prior"][k % 2], "props": "u", "t": t})
            k += 1
    return out


def small_cases(tier):
    """Every table of the base set for one plain model per link."""
    base = list(tables(3)) + list(tables(4))
    out = []
    for kind in ("poisson", "location", "classifier"):
        for t in thin(base, 2 if tier == "quick" else 1, 1):
            out.append({"kind": kind, "struct": "mixed", "prior": "none", "props": "u", "t": t})
    return out


def add_prior(kind, X, n):
    if kind in ("classifier", "gclf", "nbinomc"):
        v = [0.2, 0.7, 0.5, 0.9, NAN, 0.35]
    elif kind in ("location", "gbs", "aquant", "agen", "locpoisson"):
        v = [1.5, -0.4, 2.0, 0.3, NAN, INF]
    else:
        v = [1.5, 0.4, 2.0, 3.0, NAN, 0.0]
    X["p"] = np.array((v * (n // len(v) + 1))[:n], dtype=float)
    return X


def check_est(case, rec):
    kind = case["kind"]
    X, y = build(kind, case["t"])
    groups = STRUCTS[case["struct"]]
    kw = {}
    if case["prior"] == "prior":
        kw["prior_prediction_column"] = "p"
        X = add_prior(kind, X, len(X))
    if kind == "expo":
        kw["external"] = ["b"] if case["struct"] != "3d" else ["b", ["a", "b"]]
    m = make(kind, groups, PROPS[case["props"]], maximal_iterations=2 if kind in GENERIC else 3, **kw).fit(X, y)
    rec.op()
    Q = query(kind)
    if kind == "expo":
        Q.loc[::5, "price"] = NAN
    if case["prior"] == "prior":
        Q = add_prior(kind, Q, len(Q))
    link = link_of(kind)
    contrib = m.get_feature_contributions(Q)
    rec.op()
    expect = {}
    for g in groups:
        g = g if isinstance(g, list) else [g]
        expect[" ".join(g)] = "std"
    for g in kw.get("external", []) if kind == "expo" else []:
        g = g if isinstance(g, list) else [g]
        expect[" ".join(g) + "_%s" % ext_suffix(m, g)] = "ext"
    ensure(set(contrib) == set(expect), "contributions reported for %s instead of %s" % (sorted(contrib), sorted(expect)))
    for k, v in contrib.items():
        ensure(np.shape(v) == (len(Q),), "contribution of %s has shape %s" % (k, np.shape(v)))
    # base value
    gs = float(m.global_scale_link_)
    if kind == "nbinomc":
        gs = 0.0
    if case["prior"] == "prior" and kind != "gbs":
        off = 0.0 if kind == "nbinomc" else float(m.prior_pred_link_offset_)
        b = link(np.clip(Q["p"], 0, 1) if kind == "nbinomc" else Q["p"].values) + off
        b = np.where(np.isfinite(b), b, gs)
    else:
        b = np.full(len(Q), gs)
    std = sum(link(contrib[k]) for k, t in expect.items() if t == "std")
    total = b + std
    if kind == "expo":
        e = sum((np.log(contrib[k]) for k, t in expect.items() if t == "ext"), np.zeros(len(Q)))
        ratio = np.where(np.isfinite(Q["price"]), Q["price"] - 1.0, 0.0)
        total = total + -1.0 * np.exp(e) * ratio
    pred = raw_predict(kind, m, Q)
    rec.op()
    want = unlink_of(kind)(total)
    if kind == "locpoisson":
        want = np.maximum(want, 0.0)
    close(pred, want, "%s %s prediction against base and contributions" % (kind, case["struct"]), 1e-7, 1e-9)
    # influence categories
    cats = {}
    for i, g in enumerate(groups):
        cats[tuple(g) if isinstance(g, list) else ((g,) if i % 2 else g)] = "cat%d" % (i % 2)
    ext = m.predict_extended(Q, cats if kind != "expo" else cats)
    rec.op()
    sums = {c: np.zeros(len(Q)) for c in set(cats.values())}
    for i, g in enumerate(groups):
        k = " ".join(g if isinstance(g, list) else [g])
        sums["cat%d" % (i % 2)] = sums["cat%d" % (i % 2)] + link(contrib[k])
    for c, s in sums.items():
        close(ext.df[c].values, s, "influence category %s" % c, 1e-7, 1e-8)
    close(ext.predict_link(), total, "categorised prediction", 1e-7, 1e-8)
    close(b + sum(ext.df[c].values for c in sums), ext.factors(), "categories and base against standard effects", 1e-7, 1e-8)
    rec.trace()
    rec.state(kind, pred)


def ext_suffix(m, g):
    for f in m.features:
        if f.feature_type is not None and list(f.feature_group) == list(g):
            return f.feature_type
    return "external"


def category_cases(tier):
    """All assignments of 4 feature groups to at most 3 categories."""
    return [{"assign": list(a), "kind": k} for k in ("poisson", "location", "classifier", "expo") for a in itertools.product(range(3), repeat=4)]


def check_category(case, rec):
    kind = case["kind"]
    t = {"rows": [[0, 0], [0, 1], [1, 0], [1, 1], [-1, 1], [0, 0]], "y": [0, 1, 1, 0, 1, 1]}
    X, y = build(kind, t)
    groups = ["a", "b", ["a", "b"], "c"]
    kw = {"external": ["b"]} if kind == "expo" else {}
    m = make(kind, groups, PROPS["u"], maximal_iterations=2, **kw).fit(X, y)
    Q = query(kind, a=(-1, 0, 1, 5), b=(0, 1, -1), c=(0, 1))
    link = link_of(kind)
    contrib = m.get_feature_contributions(Q)
    cats = {(tuple(g) if isinstance(g, list) else g): "k%d" % a for g, a in zip(groups, case["assign"])}
    ext = m.predict_extended(Q, cats)
    rec.op(3)
    for k in sorted(set(cats.values())):
        want = np.zeros(len(Q))
        for g, a in zip(groups, case["assign"]):
            if "k%d" % a == k:
                want = want + link(contrib[" ".join(g if isinstance(g, list) else [g])])
        close(ext.df[k].values, want, "category %s of %s" % (k, cats), 1e-7, 1e-8)
    close(m.unlink_func(ext.predict_link()), raw_predict(kind, m, Q), "prediction with categories", 1e-9, 1e-10)
    ext.df  # noqa
    rec.trace()
    rec.state(case["assign"], ext.df.values)


NAMED = [
    ["a_b", ["a", "b"]],
    ["a b", ["a", "b"]],
    [["a", "b"], "a b", "a_b", "a"],
    ["a", "a"],
    ["a_external", "a"],
    ["a b_2", "a b", ["a", "b"]],
]


def named_cases(tier):
    ts = list(tables(4))
    out = []
    for i, kind in enumerate([k for k in REGS if k not in GENERIC] + ["expo", "nbinomc", "aquant"]):
        for j, g in enumerate(NAMED):
            for t in thin(ts, len(ts) // (3 if tier == "quick" else 30), 17 * i + j):
                out.append({"kind": kind, "groups": g, "t": t})
    return out


def check_named(case, rec):
    """Groups whose names coincide when written as text."""
    kind, groups = case["kind"], case["groups"]
    X, y = build(kind, case["t"])
    for c, src in (("a_b", "c"), ("a b", "c"), ("a_external", "b"), ("a b_2", "b")):
        X[c] = X[src]
    kw = {"external": ["a"]} if kind == "expo" else {}
    m = make(kind, groups, {c: U for c in X.columns}, maximal_iterations=2, **kw)
    try:
        m.fit(X, y)
    except ConvergenceError:
        rec.outcome("diverged")
        return
    rec.op()
    con = m.get_feature_contributions(X)
    imp = m.get_feature_importances()
    rec.op(3)
    rec.trace()
    tag = "%s with groups %s" % (kind, groups)
    n = len(groups) + (kind == "expo")
    ensure(len(con) == n, lambda: "%s: contributions %s" % (tag, sorted(con)))
    ensure(len(imp) == n, lambda: "%s: importances %s" % (tag, sorted(imp)))
    ensure(all(v >= 0 for v in imp.values()), lambda: "%s: importances %s" % (tag, imp))
    link = link_of(kind)
    eff = [link(np.asarray(v, dtype=float)) for v in con.values()]
    size = [np.mean(np.abs(e)) for e in eff]
    if sum(size) > 2e-6:
        close(sorted(imp.values()), sorted(v / sum(size) for v in size), tag + ": importances", 1e-7, 1e-9)
    if kind != "expo":
        want = unlink_of(kind)(sum(eff) + (0.0 if kind == "nbinomc" else float(m.global_scale_link_)))
        close(raw_predict(kind, m, X), np.maximum(want, 0.0) if kind == "locpoisson" else want, tag + ": prediction against contributions", 1e-7, 1e-9)
    rec.state(kind, groups, eff)
    rec.outcome("named")


def spaces(tier):
    b = "training tables: all multisets of 3 rows and a deterministic share of 4 (5) rows over a in {-1,0,1}, b in {0,1}, two targets; 84 query rows incl. missing, infinite and unseen members"
    return [
        Space("structures", lambda: est_cases(tier), check_est, "13 estimators x 6 group structures x prior/no prior; " + b, warm=warm_basic),
        Space("tables", lambda: small_cases(tier), check_est, "one model per link; " + b),
        Space("coinciding", lambda: named_cases(tier), check_named, "9 estimators x 6 sets of groups whose names as text coincide x interleaved tables"),
        Space("categories", lambda: category_cases(tier), check_category, "all assignments of 4 groups to 3 categories, 4 models"),
    ]
