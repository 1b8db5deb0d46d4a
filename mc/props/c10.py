"""C10: training does not depend on the order of rows, columns or row labels."""
import itertools

import numpy as np
import pandas as pd

from cyclic_boosting.binning import BinNumberTransformer
from cyclic_boosting.features import FeatureID
from cyclic_boosting.price import CBExponential
from mc.core import close, ensure
from mc.est import C, GENERIC, HM, O, REGS, U, frame, make, raw_predict, targets, warm_basic
from mc.run import Space
from mc.tables import PROPS, STRUCTS, query

ASSUMPTIONS = ["sums over rows are compared with relative tolerance 1e-7, numerical minimisation (quantile and custom losses) with 2e-3"]
KINDS = REGS + ["expo", "nbinomc"]


def table(kind, n, variant):
    """A table whose rows all differ in some respect."""
    rows = [(0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 0), (-1, 1, 1), (0, 0, 0)] if variant == 0 else [(2, 0, 0), (0, 1, -1), (1, 0, 1), (1, 1, 1), (2, 1, 0), (-1, -1, 1)]
    rows = rows[:n]
    d = {"a": [r[0] for r in rows], "b": [r[1] for r in rows], "c": [r[2] for r in rows]}
    X = frame(d, kind)
    X["w"] = np.array([1.0, 2.0, 0.5, 3.0, 1.5, 0.25])[:n]
    X["p"] = np.array([0.3, 0.6, 0.45, 0.9, 0.2, 0.7])[:n]
    t = targets(kind)
    if kind in ("classifier", "gclf"):
        y = np.array([1.0, 0, 0, 1, 1, 0])[:n]
    else:
        y = np.array([t[0], t[1], t[2], t[1] * 2, t[2] + 1, t[0]])[:n]
    return X, y


def model(kind, struct, props, opt):
    kw = {}
    if "w" in opt and kind != "nbinomc":
        kw["weight_column"] = "w"
    if "p" in opt and kind != "gbs":
        kw["prior_prediction_column"] = "p"
    if "h" in opt and kind not in ("expo", "nbinomc"):
        kw["hierarchical_feature_groups"] = ["a"]
    if kind == "expo":
        kw["external"] = ["b"]
    return make(kind, STRUCTS[struct], PROPS[props], maximal_iterations=2 if kind in GENERIC else (5 if "h" in opt else 3), **kw)


def results(kind, m, Q):
    return {
        "predictions": raw_predict(kind, m, Q),
        "importances": np.array([m.get_feature_importances()[k] for k in sorted(m.get_feature_importances())]),
        "contributions": np.array([m.get_feature_contributions(Q)[k] for k in sorted(m.get_feature_contributions(Q))]),
    }


def queries(kind):
    Q = query(kind, a=(-1, 0, 1, 2, 5), b=(0, 1, -1), c=(0, 1))
    Q["p"] = np.linspace(0.1, 0.9, len(Q))
    return Q


def compare(kind, m1, m2, what, rec):
    Q = queries(kind)
    r1, r2 = results(kind, m1, Q), results(kind, m2, Q)
    rec.op(6)
    # a zero gradient or a tie in a non-smooth loss may be left in either direction
    rt, at = (2e-3, 2e-3) if kind in GENERIC else (1e-7, 1e-9)
    for k in r1:
        close(r2[k], r1[k], "%s: %s" % (what, k), rt, at)
    return r1


def perm_cases(tier):
    out = []
    for kind in KINDS:
        for struct in STRUCTS:
            for props in ("u", "c", "o", "m"):
                for v in (0, 1):
                    opts = ["wp", "w", "", "h"]
                    i = len(out)
                    for opt in opts if tier != "quick" else [opts[i % 4], opts[(i + 1) % 4]]:
                        out.append({"kind": kind, "struct": struct, "props": props, "v": v, "opt": opt, "n": 4, "stride": 1 if tier != "quick" else 3})
    for kind in GENERIC:
        for struct in ("1d", "2d"):
            for opt in ("wp", ""):
                out.append({"kind": kind, "struct": struct, "props": "u", "v": 0, "opt": opt, "n": 4, "stride": 6 if tier == "quick" else 1})
    if tier != "quick":
        for kind in ("poisson", "location", "classifier", "gbs"):
            for struct in ("mixed", "rev"):
                out.append({"kind": kind, "struct": struct, "props": "c", "v": 1, "opt": "wp", "n": 6, "stride": 1})
    return out


def check_perm(case, rec):
    kind = case["kind"]
    X, y = table(kind, case["n"], case["v"])
    base = model(kind, case["struct"], case["props"], case["opt"]).fit(X.copy(), y.copy())
    r = None
    for k, p in enumerate(itertools.permutations(range(case["n"]))):
        if k % case["stride"] and k != 23:
            continue
        p = list(p)
        m = model(kind, case["struct"], case["props"], case["opt"]).fit(X.iloc[p].reset_index(drop=True), y[p])
        rec.op()
        r = compare(kind, base, m, "%s rows permuted by %s" % (kind, p), rec)
    rec.trace()
    rec.state(kind, r["predictions"])


def col_cases(tier):
    out = []
    for kind in KINDS + GENERIC:
        for how in ("reverse", "rotate1", "rotate2", "swap", "extra_front", "extra_mid", "extra_text", "index_rev", "index_dup", "index_str", "index_neg", "int64", "int32", "float32", "int8", "y_int", "y_list", "y_series", "y_series_index", "y_f32", "y_column", "fortran", "again"):
            for struct, opt in (("mixed", "wp"), ("2x1d", "")) if kind not in GENERIC else (("1d", "wp"),):
                out.append({"kind": kind, "how": how, "struct": struct, "opt": opt})
    return out


def check_col(case, rec):
    kind, how = case["kind"], case["how"]
    X, y = table(kind, 6, 1 if kind not in GENERIC else 0)
    if how.startswith("y_int") or how == "y_f32":
        y = np.round(y)
    base = model(kind, case["struct"], "u", case["opt"]).fit(X.copy(), y.copy())
    Z, t = X.copy(), y.copy()
    cols = list(X.columns)
    if how == "reverse":
        Z = Z[cols[::-1]]
    elif how == "rotate1":
        Z = Z[cols[1:] + cols[:1]]
    elif how == "rotate2":
        Z = Z[cols[2:] + cols[:2]]
    elif how == "swap":
        Z = Z[[cols[1], cols[0]] + cols[2:]]
    elif how == "extra_front":
        Z.insert(0, "zz", np.arange(6.0) * 3)
    elif how == "extra_mid":
        Z.insert(2, "aa", [np.nan, 1.0, -4.0, np.inf, 2.0, 3.0])
    elif how == "extra_text":
        Z.insert(1, "txt", list("uvwxyz"))
    elif how == "index_rev":
        Z.index = range(5, -1, -1)
    elif how == "index_dup":
        Z.index = [0, 0, 1, 1, 0, 3]
    elif how == "index_str":
        Z.index = list("fbcdea")
    elif how == "index_neg":
        Z.index = [-3, 10, 7, 7000, 2, 0]
    elif how in ("int64", "int32", "int8", "float32"):
        for c in ("a", "b", "c"):
            Z[c] = Z[c].astype(how)
    elif how == "y_int":
        t = t.astype(int)
    elif how == "y_f32":
        t = t.astype("float32")
    elif how == "y_list":
        t = list(t)
    elif how == "y_series":
        t = pd.Series(t)
    elif how == "y_series_index":
        t = pd.Series(t, index=[5, 4, 3, 2, 1, 0])
    elif how == "y_column":
        t = pd.Series(t, index=list("fedcba"), name="a")
    elif how == "fortran":
        Z = pd.DataFrame(np.asfortranarray(Z.values), columns=cols)
    m = model(kind, case["struct"], "u", case["opt"]).fit(Z, t)
    rec.op()
    r = compare(kind, base, m, "%s %s" % (kind, how), rec)
    if how == "again":
        Q = queries(kind)
        ensure(np.array_equal(raw_predict(kind, base, Q), raw_predict(kind, m, Q)), "%s: training twice gives different predictions" % kind)
    rec.trace()
    rec.state(kind, r["predictions"])


# other names of the columns a, b, c, w, p
NAMES = {
    "rotated": ["b", "c", "a", "w", "p"],
    "swapped roles": ["w", "p", "a", "b", "c"],
    "numbers": [3, 0, 7, 1, 2],
    "phrases": ["unit price", "a b", "über", "weight (kg)", "p/q"],
    "prefixes": ["a", "aa", "a_external", "aaa", "a_"],
    "own words": ["factors", "exponents", "weights", "y", "prediction"],
}
FORMS = ("tuple", "identifier", "mixed")


def name_cases(tier):
    out = []
    for kind in KINDS + GENERIC:
        for struct, opt in (("mixed", "wp"), ("rev", "p"), ("2x1d", "h")) if kind not in GENERIC else (("2x1d", "wp"),):
            for names in list(NAMES) + list(FORMS):
                out.append({"kind": kind, "struct": struct, "opt": opt, "names": names})
    return out


def check_name(case, rec):
    """Column names and the way a group is written down carry no meaning."""
    kind, opt, names = case["kind"], case["opt"], case["names"]
    X, y = table(kind, 6, 1 if kind not in GENERIC else 0)
    base = model(kind, case["struct"], "u", opt).fit(X.copy(), y.copy())
    new = dict(zip("abcwp", NAMES.get(names, "abcwp")))
    form = names if names in FORMS else "plain"

    def group(g, i):
        g = [new[c] for c in (g if isinstance(g, (list, tuple)) else [g])]
        if form == "identifier" or form == "mixed" and i % 2:
            return FeatureID(tuple(g), None)
        return tuple(g) if form == "tuple" or len(g) > 1 else g[0]

    kw = {}
    if "w" in opt and kind != "nbinomc":
        kw["weight_column"] = new["w"]
    if "p" in opt and kind != "gbs":
        kw["prior_prediction_column"] = new["p"]
    if "h" in opt and kind not in ("expo", "nbinomc"):
        kw["hierarchical_feature_groups"] = [group("a", 0)]
    kw["maximal_iterations"] = 2 if kind in GENERIC else (5 if "h" in opt else 3)
    gs = [group(g, i) for i, g in enumerate(STRUCTS[case["struct"]])]
    props = {new[c]: v for c, v in PROPS["u"].items()}
    if kind == "expo":
        m = CBExponential("price", gs, [new["b"]] if form == "plain" else [(new["b"],)], feature_properties=props, **kw)
    else:
        m = make(kind, [["a"]], props, **kw)
        m.set_params(feature_groups=gs)
    ren = dict(new)
    m.fit(X.rename(columns=ren), y)
    rec.op(2)
    Q = queries(kind)
    tag = "%s on %s, columns %s, groups written as %s" % (kind, case["struct"], list(new.values()), gs)
    rt, at = (2e-3, 2e-3) if kind in GENERIC else (1e-7, 1e-9)
    QR = Q.rename(columns=ren)
    p = raw_predict(kind, base, Q)
    close(raw_predict(kind, m, QR), p, tag + ": predictions", rt, at)
    c1, c2 = list(base.get_feature_contributions(Q).values()), list(m.get_feature_contributions(QR).values())
    ensure(len(c1) == len(c2), lambda: "%s: %d contributions" % (tag, len(c2)))
    for u, v in zip(c1, c2):
        close(v, u, tag + ": contributions", rt, at)
    i1, i2 = list(base.get_feature_importances().values()), list(m.get_feature_importances().values())
    close(sorted(i2), sorted(i1), tag + ": importances", rt, at)
    rec.op(6)
    rec.trace()
    rec.state(kind, case["struct"], names, p)


def array_cases(tier):
    """Arrays: features by position, all placements of the columns."""
    out = []
    for kind in ("poisson", "location", "classifier", "gbs", "nbinom", "locpoisson"):
        for p in itertools.permutations(range(4)):
            out.append({"kind": kind, "p": list(p)})
    return out


def check_array(case, rec):
    kind = case["kind"]
    X, y = table(kind, 6, 1)
    p = case["p"]
    names = ["a", "b", "w", "p"]
    A = X[names].values
    pos = {n: p.index(i) for i, n in enumerate(names)}
    B = A[:, p]
    g = [["a"], ["a", "b"], ["b"]]
    pr = {"a": C | HM, "b": U}
    kw1 = dict(weight_column="w")
    kw2 = dict(weight_column=pos["w"])
    if kind != "gbs":
        kw1["prior_prediction_column"] = "p"
        kw2["prior_prediction_column"] = pos["p"]
    m1 = make(kind, g, pr, maximal_iterations=3, **kw1).fit(X, y)
    m2 = make(kind, [[pos[c] for c in x] for x in g], {pos[k]: v for k, v in pr.items()}, maximal_iterations=3, **kw2).fit(B, y)
    Q = queries(kind)
    Q["w"] = 1.0
    QB = np.empty((len(Q), 4))
    for n in names:
        QB[:, pos[n]] = Q[n]
    close(raw_predict(kind, m2, QB), raw_predict(kind, m1, Q), "array with columns at %s against data frame" % pos, 1e-9, 1e-10)
    rec.op(4)
    rec.trace()
    rec.state(kind, p)


def bin_cases(tier):
    vals = [0.0, 1.0, 1.5, 4.0, float("nan"), -2.0]
    n = 5 if tier == "quick" else 6
    out = []
    for t in itertools.combinations_with_replacement(vals, 4 if tier == "quick" else 5):
        for pr in (None, "u", "o", "c"):
            for w in (False, True):
                out.append({"t": list(t), "pr": pr, "w": w, "n": n})
    return out


def check_bins(case, rec):
    v = case["t"]
    k = len(v)
    X = pd.DataFrame({"x": v, "z": v[::-1], "w": [1.0, 2.0, 0.5, 1.0, 3.0][:k]})
    pr = {None: None, "u": {"x": U, "z": C}, "o": {"x": O, "z": C}, "c": {"x": C, "z": U}}[case["pr"]]
    kw = {"weight_column": "w"} if case["w"] else {}
    Q = pd.DataFrame({"x": [0.0, 1.0, 1.2, 1.5, 3.0, 4.0, 9.0, -2.0, -5.0, float("nan")], "z": [4.0, 0.0, -2.0, 1.5, 1.0, 9.0, float("nan"), 1.4, 2.0, 0.1], "w": 1.0})

    def run(F, order=None):
        t = BinNumberTransformer(n_bins=2, feature_properties=pr, **kw).fit(F)
        out = t.transform(Q[list(F.columns)].copy())
        rec.op(2)
        return np.c_[np.asarray(out["x"], float), np.asarray(out["z"], float)]

    want = run(X)
    for j, p in enumerate(itertools.permutations(range(k))):
        if k > 4 and j % 5:
            continue
        close(run(X.iloc[list(p)]), want, "bins of rows permuted by %s" % (p,), 0, 0)
    for cols in itertools.permutations(X.columns):
        close(run(X[list(cols)]), want, "bins of columns in order %s" % (cols,), 0, 0)
    rec.trace()
    rec.state(want)


def spaces(tier):
    return [
        Space("row-permutations", lambda: perm_cases(tier), check_perm, "all permutations of 4 distinct rows (every third in quick; 6 rows in thorough), 13 estimators x 6 structures x 4 flag sets, weights, prior, hierarchical groups", warm=warm_basic),
        Space("representations", lambda: col_cases(tier), check_col, "13 estimators x 23 re-representations (column orders, extra columns, indices, numeric types, target containers, repetition)"),
        Space("names", lambda: name_cases(tier), check_name, "13 estimators x 3 structures x 6 ways of naming the columns and 3 ways of writing the groups"),
        Space("arrays", lambda: array_cases(tier), check_array, "all 24 column placements in arrays against the data frame, 6 estimators"),
        Space("binning", lambda: bin_cases(tier), check_bins, "all multisets of 4 (5) values over 6, all row permutations and column orders, 4 property sets, with/without weights"),
    ]
