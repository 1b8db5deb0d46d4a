"""C17: feature importances are the normalised mean effect sizes."""
import itertools
import warnings

import numpy as np
import pandas as pd

from cyclic_boosting.base import ConvergenceError
from mc.core import close, ensure
from mc.est import ALL, GENERIC, MNL, U, link_of, make, warm_basic
from mc.run import Space
from mc.tables import PROPS, STRUCTS, build, tables, thin

ASSUMPTIONS = [
    "Feature groups are named so that the joined names are distinct.",
    "A model whose effects sum up to less than 1e-6 counts as having no effect.",
]


def cases(tier):
    q = tier == "quick"
    t3, t4 = list(tables(3)), list(tables(4))
    out = []
    i = 0
    for kind in ALL:
        gen = kind in GENERIC
        for struct in STRUCTS:
            if gen and struct not in ("2x1d", "mixed"):
                continue
            for props in PROPS:
                if gen and props != "u":
                    continue
                per = (9 if not gen else 8 if kind != "mquant" else 2) * (1 if q else 10)
                for t in thin(t3, len(t3) // per, 3 * i) + thin(t4, len(t4) // per, 7 * i):
                    out.append({"kind": kind, "struct": struct, "props": props, "t": t, "w": i % 3, "agg": i % 4 != 3})
                    i += 1
    return out


def train(case, order=None, refit=False):
    kind = case["kind"]
    X, y = build(kind, case["t"])
    X["z"] = -1.0
    kw = {}
    if case["w"] and kind not in ("nbinomc",):
        X["w"] = np.array(([1.0, 2.0, 0.5, 3.0] if case["w"] == 1 else [100.0, 1.0, 1.0, 1.0]))[: len(X)]
        kw["weight_column"] = "w"
    gs = list(STRUCTS[case["struct"]]) + ["z"]
    if kind == "expo":
        kw["external"] = ["b", ["a", "b"]]
    if not case["agg"] and kind not in ("expo", "nbinomc"):
        kw["aggregate"] = False
    if order is not None:
        X, y = X.iloc[order].reset_index(drop=True), y[order]
    m = make(kind, gs, dict(PROPS[case["props"]], z=U | MNL), maximal_iterations=3 if kind != "mquant" else 2, **kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if refit:
                y2 = 1.0 - y if kind in ("classifier", "gclf") else y[::-1] + 1.0
                m.fit(X, y2)
                m.get_feature_importances()
            m.fit(X, y)
        except ConvergenceError:
            return None, X
    return m, X


def check(case, rec):
    kind = case["kind"]
    m, X = train(case)
    rec.op()
    rec.trace()
    if m is None:
        rec.outcome("convergence error")
        return
    tag = "%s %s %s" % (kind, STRUCTS[case["struct"]], case["props"])
    imp = m.get_feature_importances()
    con = m.get_feature_contributions(X)
    lk = link_of(kind)
    size = {k.replace(" ", "_"): np.mean(np.abs(lk(np.asarray(v, dtype=float)))) for k, v in con.items()}
    ensure(set(imp) == set(size), lambda: "%s: importances %s for groups %s" % (tag, sorted(imp), sorted(size)))
    total = sum(size.values())
    v = np.array([imp[k] for k in sorted(imp)], dtype=float)
    rec.state(kind, case["struct"], v)
    ensure((v >= 0).all(), lambda: "%s: negative importance %s" % (tag, imp))
    if total > 2e-6:
        close(v.sum(), 1.0, tag + ": sum of importances", 1e-12, 1e-12)
        close(v, [size[k] / total for k in sorted(imp)], tag + ": importances", 1e-7, 1e-9)
        rec.outcome("effects")
    else:
        ensure(v.sum() <= 1 + 1e-9, tag + ": importances without effects")
        rec.outcome("no effects")
    # z is missing everywhere and not learned
    ensure(imp["z"] == 0, lambda: "%s: importance %r of a group without effect" % (tag, imp["z"]))
    again = m.get_feature_importances()
    ensure(again == imp, tag + ": importances differ between two calls")
    n = len(X)
    orders = list(itertools.permutations(range(n)))
    if kind not in GENERIC:
        # the dispersion model picks between candidates whose costs may tie up to rounding
        for order in (orders[-1], orders[n]) if kind != "nbinomc" else ():
            m2, _ = train(case, list(order))
            rec.op()
            if m2 is None or total < 1e-4:
                continue
            i2 = m2.get_feature_importances()
            close([i2[k] for k in sorted(imp)], v, tag + ": importances after reordering the rows", 1e-6, 1e-7)
        m3, _ = train(case, refit=True)
        rec.op()
        if m3 is not None:
            i3 = m3.get_feature_importances()
            ensure(set(i3) == set(imp), lambda: "%s: importances after a refit %s" % (tag, i3))
            close([i3[k] for k in sorted(imp)], v, tag + ": importances after a refit", 1e-9, 1e-12)


def spaces(tier):
    return [
        Space("models", lambda: cases(tier), check,
              "13 estimators x 6 structures (plus a group without effect) x 4 property sets x interleaved subsets of all 3- and 4-row tables x 3 weightings; reordered and refitted",
              warm=warm_basic),
    ]
