"""C08: predictions stay finite and inside the range of the model."""
import itertools

import numpy as np

from cyclic_boosting.link import IdentityLinkMixin, LogitLinkMixin, LogLinkMixin
from mc.core import close, ensure
from mc.est import ADD, GENERIC, MULT, REGS, frame, make, raw_predict, warm_basic
from mc.run import Space
from mc.tables import PROPS, STRUCTS, build, query, rows_universe, thin

ASSUMPTIONS = []
VALUES = {
    "mult": [0.0, 1.0, 3.0, 1e6, 1e-3],
    "add": [0.0, -4.0, 2.5, 1e6, -1e-3],
    "prob": [0.0, 1.0],
    "count": [0.0, 1.0, 7.0, 1000.0],
}


def values(kind):
    if kind in ("classifier", "gclf"):
        return VALUES["prob"]
    if kind == "nbinomc":
        return VALUES["count"]
    if kind == "locpoisson":
        return VALUES["mult"]
    return VALUES["mult"] if kind in MULT else VALUES["add"]


def target_patterns(kind, n):
    v = values(kind)
    out = [[x] * n for x in v]
    for x, z in itertools.permutations(v, 2):
        out.append([x] + [z] * (n - 1))
    if n >= 4:
        for x, z in itertools.combinations(v, 2):
            out.append([x, z] * (n // 2) + [x] * (n % 2))
    seen = []
    for t in out:
        if t not in seen:
            seen.append(t)
    return seen


def cases(tier):
    uni = rows_universe()
    shapes = [list(r) for n in (1, 2) for r in itertools.combinations_with_replacement(uni, n)]
    shapes += [list(r) for r in thin(list(itertools.combinations_with_replacement(uni, 4)), 9 if tier == "quick" else 2)]
    out = []
    k = 0
    for kind in REGS + ["expo", "nbinomc"] + GENERIC:
        for struct in STRUCTS:
            for props in ("u", "c", "o", "m"):
                sub = []
                for rows in shapes:
                    for t in target_patterns(kind, len(rows)):
                        sub.append((rows, t))
                if tier == "quick":
                    per = len(sub) // (50 if kind not in GENERIC else 4)
                    if kind in GENERIC and (struct not in ("1d", "mixed") or props not in ("u", "c")):
                        continue
                else:
                    per = len(sub) // (150 if kind not in GENERIC else 12)
                for j, (rows, t) in enumerate(thin(sub, max(per, 1), k)):
                    out.append({"kind": kind, "struct": struct, "props": props, "rows": rows, "t": t, "w": (k + j) % 3, "p": (k + j) // 3 % 2})
                k += 5
    return out


def in_range(kind, m, Q, tag):
    p = raw_predict(kind, m, Q)
    ensure(np.isfinite(p).all(), lambda: "%s: non-finite predictions %s" % (tag, p[~np.isfinite(p)][:3]))
    ensure(p.shape == (len(Q),), "%s: shape %s" % (tag, p.shape))
    if kind in MULT or kind == "locpoisson":
        ensure((p >= 0).all(), lambda: "%s: negative prediction %r" % (tag, p.min()))
    elif kind == "nbinomc":
        ensure(((p >= 0) & (p <= 1)).all(), lambda: "%s: dispersion outside [0,1]: %r %r" % (tag, p.min(), p.max()))
    elif kind == "gclf":
        ensure(((p >= 0) & (p <= 1)).all(), lambda: "%s: probability outside [0,1]: %r %r" % (tag, p.min(), p.max()))
    elif kind == "classifier":
        pp = m.predict_proba(Q)
        ensure(pp.shape == (len(Q), 2) and ((pp >= 0) & (pp <= 1)).all(), lambda: "%s: probabilities %s" % (tag, pp[:3]))
        close(pp.sum(axis=1), np.ones(len(Q)), tag + ": sum of probabilities", 1e-12, 1e-12)
        lab = m.predict(Q)
        ensure(np.array_equal(lab, (pp[:, 1] > pp[:, 0]).astype(float)) or near_half(pp, lab), lambda: "%s: labels %s for probabilities %s" % (tag, lab[:5], pp[:5]))
    return p


def near_half(pp, lab):
    bad = lab != (pp[:, 1] > pp[:, 0])
    return set(np.unique(lab)) <= {0.0, 1.0} and (np.abs(pp[bad, 1] - 0.5) < 1e-12).all()


def check(case, rec):
    kind = case["kind"]
    n = len(case["rows"])
    X, _ = build(kind, {"rows": case["rows"], "y": [0] * n})
    y = np.array(case["t"], dtype=float)
    kw = {}
    if case["w"] and kind != "nbinomc":
        X["w"] = np.array(([1.0, 0.0, 2.5, 1e-3] if case["w"] == 1 else [3.0, 1.0, 0.0, 1e4]) * n)[:n]
        if X["w"].sum() > 0 and not (X["w"] == 0).all():
            kw["weight_column"] = "w"
    if case["p"] and kind != "gbs":
        X["p"] = prior(kind, n)
        kw["prior_prediction_column"] = "p"
    if kind == "expo":
        kw["external"] = ["b"]
    m = make(kind, STRUCTS[case["struct"]], PROPS[case["props"]], maximal_iterations=2 if kind in GENERIC else 5, **kw)
    from cyclic_boosting.base import ConvergenceError

    try:
        m.fit(X, y)
    except ConvergenceError:
        # refusing to deliver a model is allowed; delivering a non-finite one is not
        rec.op()
        rec.trace()
        rec.outcome("convergence error")
        return
    Q = query(kind, a=(-1, 0, 1, 5), b=(-1, 0, 1), c=(0, 1))
    if "prior_prediction_column" in kw:
        Q["p"] = prior(kind, len(Q))
    if kind == "expo":
        Q.loc[::4, "price"] = np.nan
        Q.loc[1::4, "price"] = 3.0
    p = in_range(kind, m, Q, "%s %s" % (kind, case["struct"]))
    in_range(kind, m, X, "%s %s (training rows)" % (kind, case["struct"]))
    rec.op(3)
    rec.trace()
    rec.state(kind, p)


def prior(kind, n):
    if kind in ("classifier", "gclf", "nbinomc"):
        v = [0.2, 0.7, 0.0, 1.0, np.nan]
    elif kind in ADD and kind != "locpoisson":
        v = [1.5, -0.4, np.inf, 0.3, np.nan]
    else:
        v = [1.5, 0.4, 0.0, 3.0, np.nan, np.inf]
    return np.array((v * (n // len(v) + 1))[:n])


GRID = {
    "log": list(10.0 ** np.arange(-300, 301, 4.0)) + [0.5, 2.0, 3.0],
    "logit": [0.0, 1e-300, 1e-12, 1e-3, 0.1, 0.25, 0.5, 0.75, 0.9, 0.999, 1 - 1e-12, 1.0],
    "identity": [-1e300, -5.0, -1e-12, 0.0, 1e-12, 2.0, 1e300],
}
LINKS = {"log": LogLinkMixin, "logit": LogitLinkMixin, "identity": IdentityLinkMixin}


def link_cases(tier):
    out = []
    for name, g in GRID.items():
        for i, j in itertools.combinations(range(len(g)), 2):
            if name == "log" and (j - i) > 3 and (i + j) % 7:
                continue
            out.append({"link": name, "x": sorted([g[i], g[j]])})
    return out


def check_link(case, rec):
    name = case["link"]
    L = LINKS[name]()
    x = np.array(case["x"])
    keep = x.copy()
    l = L.link_func(x)
    back = L.unlink_func(l)
    rec.op(2)
    ensure(np.array_equal(x, keep), "link function changed its argument")
    ensure(not np.shares_memory(l, x) and not np.shares_memory(back, l), "%s link answers with its argument instead of a copy" % name)
    rel = 1e-9 if name == "log" else 1e-12
    close(back, x, "unlink(link(x)) of %s" % name, rel, 0 if name == "log" else 1e-15)
    ensure(l[0] < l[1] or (name == "logit" and abs(x[0] - x[1]) < 1e-15), lambda: "%s link does not preserve the order of %s: %s" % (name, x, l))
    ensure(bool(L.is_in_range(x)), "%s: %s reported as out of range" % (name, x))
    if name == "log":
        for bad in (0.0, -1.0, np.nan):
            ensure(not L.is_in_range(np.array([1.0, bad])), "log link accepts %r" % bad)
        want = np.log(x)
    elif name == "logit":
        for bad in (-1e-9, 1.1, np.nan):
            ensure(not L.is_in_range(np.array([0.5, bad])), "logit link accepts %r" % bad)
        with np.errstate(all="ignore"):
            want = np.log(x) - np.log1p(-x)
    else:
        want = x
    close(l, want, "%s link value" % name, 1e-9, 1e-12)
    if name != "identity":
        t = np.array([-700.0, -30.0, -1.0, 0.0, 1e-9, 2.0, 30.0])
        close(L.link_func(L.unlink_func(t)), t, "link(unlink(t)) of %s" % name, 1e-6 if name == "log" else 3e-3, 1e-8)
        u = L.unlink_func(np.array([-5000.0, -1.0, 1.0, 5000.0]))
        ensure((np.diff(u) > 0).all(), "%s unlink does not preserve order" % name)
    rec.trace()
    rec.state(name, l)


def spaces(tier):
    return [
        Space("links", lambda: link_cases(tier), check_link, "3 links, all ordered pairs of a grid over their range including its ends", warm=warm_basic),
        Space("degenerate", lambda: cases(tier), check, "13 estimators x 6 structures x 4 flag sets; tables of 1, 2 and 4 rows over {-1,0,1}x{0,1}; constant, one-outlier and alternating targets incl. zero and 1e6; zero and extreme weights; zero/one/non-finite priors; 24 query rows"),
    ]
