"""C06: each row is scored from its own values only."""
import itertools

import numpy as np
import pandas as pd

from cyclic_boosting import flags
from cyclic_boosting.binning import BinNumberTransformer, ECdfTransformer
from mc.core import close, ensure, is_close
from mc.est import GENERIC, REGS, C, O, U, make, raw_predict, warm_basic
from mc.run import Space
from mc.tables import INF, NAN, PROPS, STRUCTS, build, frame, tables, thin

ASSUMPTIONS = ["bin numbers are whole numbers"]

ROWS = [(0, 0, 0), (1, 1, 1), (-1, 0, 1), (0, NAN, 0), (7, 1, 0), (1, 0, -1), (INF, 1, 1), (-1, -1, -1)]


def train(kind, struct, props, ti, **kw):
    ts = TR
    t = ts[ti % len(ts)]
    X, y = build(kind, t)
    X, y = prep(kind, X, y, kw.get("prior_prediction_column"))
    if kind == "expo":
        kw["external"] = ["b"]
    return make(kind, STRUCTS[struct], PROPS[props], maximal_iterations=2, **kw).fit(X, y)


TR = [
    {"rows": [[0, 0], [0, 1], [1, 0], [1, 1], [-1, 1], [0, 0]], "y": [0, 1, 1, 0, 1, 1]},
    {"rows": [[0, 0], [1, 0], [2, 1], [-1, 0], [2, 0]], "y": [1, 0, 1, 1, 0]},
]


def prep(kind, X, y, prior):
    if prior:
        v = [0.2, 0.7, 0.5, 0.9] if kind in ("classifier", "gclf", "nbinomc") else [1.5, 0.4, 2.0, 3.0]
        X = X.copy()
        X["p"] = np.array((v * len(X))[: len(X)], dtype=float)
    return X, y


def rows_frame(kind, idx, prior):
    X = frame({"a": [r[0] for r in ROWS], "b": [r[1] for r in ROWS], "c": [r[2] for r in ROWS]}, kind)
    if prior:
        X["p"] = [0.2, 0.7, NAN, 0.9, 0.3, 0.6, 0.1, 0.5]
    if kind == "expo":
        X.loc[2, "price"] = NAN
    return X.iloc[list(idx)].reset_index(drop=True), X


def batch_cases(tier):
    n = len(ROWS)
    out = []
    structs = ("mixed", "rev") if tier == "quick" else tuple(STRUCTS)
    kinds = REGS + ["expo", "nbinomc", "aquant", "gclf"] + ([] if tier == "quick" else ["mquant", "mgen", "agen"])
    for i, kind in enumerate(kinds):
        for j, s in enumerate(structs):
            for prior in (False, True):
                if kind == "gbs" and prior or (kind in GENERIC and (prior or j)):
                    continue
                for first in range(n):
                    out.append({"kind": kind, "struct": s, "prior": prior, "first": first, "props": "ucom"[(i + j) % 4], "ti": j, "depth": 3})
    return out


_CACHE = {}


def model(case):
    key = (case["kind"], case["struct"], case["prior"], case["props"], case["ti"])
    if key not in _CACHE:
        kw = {"prior_prediction_column": "p"} if case["prior"] else {}
        m = train(case["kind"], case["struct"], case["props"], case["ti"], **kw)
        _, F = rows_frame(case["kind"], range(len(ROWS)), case["prior"])
        single = [float(raw_predict(case["kind"], m, F.iloc[[i]].reset_index(drop=True))[0]) for i in range(len(ROWS))]
        cs = [m.get_feature_contributions(F.iloc[[i]].reset_index(drop=True)) for i in range(len(ROWS))]
        _CACHE.clear()
        _CACHE[key] = (m, F, np.array(single), cs)
    return _CACHE[key]


def check_batch(case, rec):
    """All ordered batches (with repetition) of <= 3 rows that start with a given row."""
    m, F, single, cs = model(case)
    n = len(ROWS)
    for d in range(1, case["depth"] + 1):
        for rest in itertools.product(range(n), repeat=d - 1):
            idx = (case["first"],) + rest
            B = F.iloc[list(idx)]
            B.index = [[3, 3, 3], [2, 0, 1], [-1, 7, 7]][(idx[-1]) % 3][: len(idx)]
            p = raw_predict(case["kind"], m, B)
            rec.op()
            close(p, single[list(idx)], "%s: batch of rows %s" % (case["kind"], idx), 1e-12, 1e-13)
            if d == 2:
                c = m.get_feature_contributions(B)
                rec.op()
                for k in c:
                    close(c[k], [cs[i][k][0] for i in idx], "contribution of %s in batch %s" % (k, idx), 1e-12, 1e-13)
            rec.state(case["kind"], case["struct"], idx, p)
    rec.trace()


SIZES = (9, 64, 100, 101, 256, 1000, 1025, 5000, 10001, 70000)


def size_cases(tier):
    kinds = REGS + ["expo", "nbinomc", "aquant", "mquant", "gclf"]
    return [{"kind": k, "struct": s, "prior": k not in GENERIC + ["gbs"], "props": "ucom"[i % 4], "ti": j} for i, k in enumerate(kinds) for j, s in enumerate(("mixed", "rev"))]


def check_size(case, rec):
    """Rows in large batches, so that the row classes start and end anywhere."""
    m, F, single, cs = model(case)
    n = len(ROWS)
    for size in SIZES:
        for order in (1, 3):
            idx = [(i * order) % n for i in range(size)] if order > 1 else sorted(i % n for i in range(size))
            B = F.iloc[idx].reset_index(drop=True)
            p = raw_predict(case["kind"], m, B)
            rec.op()
            bad = [i for i in range(size) if not is_close(p[i], single[idx[i]], 1e-12, 1e-13)] if len(p) != size or not np.allclose(p, single[idx], 1e-12, 1e-13, equal_nan=True) else []
            ensure(len(p) == size, lambda: "%s: %d predictions for %d rows" % (case["kind"], len(p), size))
            ensure(not bad, lambda: "%s: row %d of %d rows: %s instead of %s" % (case["kind"], bad[0], size, p[bad[0]], single[idx[bad[0]]]))
            c = m.get_feature_contributions(B)
            rec.op()
            for k in c:
                close(c[k], np.array([v[k][0] for v in cs])[idx], "contribution of %s in %d rows" % (k, size), 1e-12, 1e-13)
            rec.state(case["kind"], case["struct"], size, order)
    rec.trace()


def container_cases(tier):
    kinds = REGS + ["expo", "nbinomc", "aquant"]
    return [{"kind": k, "struct": s, "ti": i} for k in kinds for s in ("mixed", "rev", "3d") for i in range(2) if not (k == "aquant" and (s != "mixed" or i))]


def check_container(case, rec):
    kind = case["kind"]
    m = train(kind, case["struct"], "u", case["ti"])
    F = frame({"a": [0, 1, -1, 7, 1, 0], "b": [0, 1, 0, 1, -1, 5], "c": [0, 1, 1, 0, -1, 0]}, kind)
    base = raw_predict(kind, m, F)
    rec.op()
    c0 = m.get_feature_contributions(F)
    bins = ["a", "b", "c"]
    variants = {}
    for dt in ("int64", "int32", "int16", "int8", "float32", "float64"):
        G = F.copy()
        for b in bins:
            G[b] = G[b].astype(dt)
        variants["dtype " + dt] = G
    G = F.copy()
    G["a"], G["b"], G["c"] = G["a"].astype("int8"), G["b"].astype("float32"), G["c"].astype("int64")
    variants["mixed dtypes"] = G
    G = F.astype(object)
    for cl in F.columns:
        if cl not in bins:
            G[cl] = F[cl]
    for perm in itertools.permutations(list(F.columns)[:3]):
        variants["columns %s" % (perm,)] = F[list(perm) + list(F.columns)[3:]]
        variants["columns r%s" % (perm,)] = F[list(F.columns)[3:] + list(perm)]
    G = F.copy()
    G.insert(0, "zz", np.arange(len(F)) * 3.5)
    G.insert(2, "text", ["x%d" % i for i in range(len(F))])
    G["nothing"] = NAN
    variants["unrelated columns"] = G
    for name, ix in (("strings", list("fedcba")), ("duplicates", [1] * 6), ("dates", pd.date_range("2020-01-01", periods=6)), ("offset", range(100, 106)), ("reversed", range(5, -1, -1))):
        G = F.copy()
        G.index = ix
        variants["index " + name] = G
    G = F.copy()
    G.index = pd.MultiIndex.from_tuples([(i, "k") for i in range(6)])
    variants["multi index"] = G
    variants["fortran order"] = pd.DataFrame(np.asfortranarray(F.values), columns=F.columns)
    for name, G in variants.items():
        close(raw_predict(kind, m, G), base, "%s: %s" % (kind, name), 1e-12, 1e-13)
        c = m.get_feature_contributions(G)
        ensure(set(c) == set(c0), "%s: contributions of %s" % (kind, name))
        for k in c0:
            close(c[k], c0[k], "%s: contribution %s with %s" % (kind, k, name), 1e-12, 1e-13)
        rec.op(2)
        rec.state(name, kind)
    close(raw_predict(kind, m, F), base, "repeated prediction", 0, 0)
    rec.trace()


def column_cases(tier):
    kinds = REGS + ["expo", "nbinomc"] + GENERIC
    return [{"kind": k, "struct": s, "extra": e} for k in kinds for s in STRUCTS for e in ("none", "weight", "prior", "both", "exponent") if not (e in ("prior", "both") and k == "gbs" or e == "exponent" and k != "expo" or k in GENERIC and s not in ("2x1d", "2d", "mixed"))]


def check_columns(case, rec):
    """The columns reported as required are those the model was given."""
    kind, extra = case["kind"], case["extra"]
    X, y = build(kind, TR[0])
    X["unrelated"] = 3.0
    kw = {}
    need = {c for g in STRUCTS[case["struct"]] for c in (g if isinstance(g, list) else [g])}
    if extra in ("weight", "both"):
        X["w"] = [1.0, 2.0, 1.0, 0.5, 1.0, 3.0]
        kw["weight_column"] = "w"
        need.add("w")
    if extra in ("prior", "both"):
        X, y = prep(kind, X, y, True)
        kw["prior_prediction_column"] = "p"
        need.add("p")
    if extra == "exponent":
        X["e"] = -1.5
        kw["prior_exponent_colname"] = "e"
        need.add("e")
    if kind == "expo":
        need |= {"price"}
        kw["external"] = ["b"]
        need.add("b")
    if kind == "nbinomc":
        need.add("mu")
    m = make(kind, STRUCTS[case["struct"]], PROPS["u"], maximal_iterations=1, **kw).fit(X, y)
    rec.op(2)
    got = set(m.required_columns())
    ensure(got == need, lambda: "%s on %s with %s: required columns %s, given %s" % (kind, case["struct"], extra, sorted(got), sorted(need)))
    m2 = make(kind, STRUCTS[case["struct"]], PROPS["u"], maximal_iterations=1, **kw).fit(X[sorted(need)], y)
    close(raw_predict(kind, m2, X[sorted(need)]), raw_predict(kind, m, X), "%s: only the required columns %s" % (kind, sorted(need)), 1e-12, 1e-13)
    rec.op(2)
    rec.trace()
    rec.state(case)


def array_cases(tier):
    return [{"kind": k, "struct": s, "ti": i} for k in REGS for s in ("2x1d", "mixed", "rev", "3d") for i in range(2)]


def check_array(case, rec):
    """Arrays with integer groups against data frames with names."""
    kind = case["kind"]
    X, y = build(kind, TR[case["ti"]])
    pos = {"a": 0, "b": 1, "c": 2}
    g = STRUCTS[case["struct"]]
    gi = [tuple(pos[x] for x in q) if isinstance(q, list) else pos[q] for q in g]
    mf = make(kind, g, PROPS["u"], maximal_iterations=2).fit(X, y)
    ma = make(kind, gi, {0: U, 1: U, 2: U}, maximal_iterations=2).fit(X[["a", "b", "c"]].values, y)
    rec.op(2)
    F = frame({"a": [r[0] for r in ROWS], "b": [r[1] for r in ROWS], "c": [r[2] for r in ROWS]})
    want = raw_predict(kind, mf, F)
    close(raw_predict(kind, ma, F.values), want, "array model", 1e-12, 1e-13)
    close(raw_predict(kind, ma, np.asfortranarray(F.values)), want, "array model, fortran order", 1e-12, 1e-13)
    G = np.c_[F.values, np.full(len(F), NAN)]
    close(raw_predict(kind, ma, G), want, "array model, additional column", 1e-12, 1e-13)
    for i in range(len(F)):
        close(raw_predict(kind, ma, F.values[i : i + 1]), want[i : i + 1], "array model, row %d alone" % i, 1e-12, 1e-13)
    rec.op(3 + len(F))
    rec.trace()
    rec.state(want)


def seq_cases(tier):
    ops = ["pA", "pB", "pE", "cA", "xB", "tA", "tB"]
    n = 3 if tier == "quick" else 4
    kinds = REGS + ["expo", "nbinomc"]
    return [{"kind": k, "first": f, "n": n} for k in kinds for f in ops]


def check_seq(case, rec):
    """All call sequences on one fitted model; every call must return what a fresh model returns."""
    kind = case["kind"]
    m = train(kind, "mixed", "u", 0)
    m.output_column = "out"
    A, F = rows_frame(kind, [0, 1, 2, 3], False)
    B, _ = rows_frame(kind, [4, 5, 6, 7, 0], False)
    E, _ = rows_frame(kind, [2], False)
    ops = {
        "pA": lambda: raw_predict(kind, m, A), "pB": lambda: raw_predict(kind, m, B), "pE": lambda: raw_predict(kind, m, E),
        "cA": lambda: np.concatenate([v for _, v in sorted(m.get_feature_contributions(A).items())]),
        "xB": lambda: m.predict_extended(B, None).predict_link(),
        "tA": lambda: m.transform(A.copy())["out"].values, "tB": lambda: m.transform(B.copy())["out"].values,
    }
    ref = {}
    for k, f in ops.items():
        m2 = train(kind, "mixed", "u", 0)
        m2.output_column = "out"
        keep, m = m, m2
        ref[k] = np.array(f())
        m = keep
    imp = dict(m.get_feature_importances())
    for rest in itertools.product(sorted(ops), repeat=case["n"] - 1):
        seq = (case["first"],) + rest
        for k in seq:
            got = ops[k]()
            rec.op()
            close(got, ref[k], "%s: call %s in sequence %s" % (kind, k, seq), 1e-12, 1e-13)
        rec.trace()
        rec.state(kind, seq)
    ensure(m.get_feature_importances() == imp, "importances changed by predicting")


def binner_cases(tier):
    out = []
    for tr in ("BinNumberTransformer", "ECdfTransformer"):
        for props in ("none", "mixed"):
            for first in range(9):
                out.append({"tr": tr, "props": props, "first": first})
    return out


def check_binner(case, rec):
    T = pd.DataFrame({"a": [1.5, 2, 2, 3, 5, NAN, 9, 4], "b": [10.0, 20, 10, 30, 20, 20, 10, 10]})
    props = None if case["props"] == "none" else {"a": C, "b": U}
    t = (BinNumberTransformer if case["tr"].startswith("Bin") else ECdfTransformer)(n_bins=3, feature_properties=props).fit(T)
    V = [(1.5, 10), (2.0, 20), (2.2, 30), (NAN, 10), (0.0, 15), (99.0, NAN), (INF, 10), (3, -INF), (-9.0, -999.0)]
    F = pd.DataFrame(V, columns=["a", "b"], dtype=float)
    single = np.vstack([np.asarray(t.transform(F.iloc[[i]].copy()), dtype=float) for i in range(len(V))])
    for d in (1, 2, 3):
        for rest in itertools.product(range(len(V)), repeat=d - 1):
            idx = (case["first"],) + rest
            B = F.iloc[list(idx)].copy()
            r = np.asarray(t.transform(B), dtype=float)
            rec.op()
            close(r, single[list(idx)], "%s batch %s" % (case["tr"], idx), 1e-12, 1e-13)
            rec.state(case["tr"], case["props"], r)
    rec.trace()


def check_binner_size(case, rec):
    n = case["n"]
    x = np.array([((i * 37) % n) ** 1.5 for i in range(n)])
    T = pd.DataFrame({"a": x, "b": [float(i % 11) for i in range(n)]})
    T.loc[T.index[::7], "a"] = NAN
    props = None if case["props"] == "none" else {"a": C, "b": U}
    t = (BinNumberTransformer if case["tr"].startswith("Bin") else ECdfTransformer)(n_bins=20, feature_properties=props).fit(T)
    F = pd.concat([T, pd.DataFrame({"a": [INF, -5.0, 1e9], "b": [NAN, 3.5, 400.0]})], ignore_index=True)
    whole = np.asarray(t.transform(F.copy()), dtype=float)
    rec.op()
    for i in list(range(0, len(F), max(1, len(F) // 60))) + list(range(len(F) - 4, len(F))):
        one = np.asarray(t.transform(F.iloc[[i]].copy()), dtype=float)[0]
        rec.op()
        close(whole[i], one, "%s: row %d of %d" % (case["tr"], i, len(F)), 1e-12, 1e-13)
    rec.trace()
    rec.state(case, whole[:50])


EDITS = ["a", "b", "c", "swap", "none"]


def edit(X, how, step):
    """Change the table itself; it stays the same object."""
    v = [0.0, 1.0, -1.0, NAN]
    if how == "swap":
        Y = X.iloc[::-1].values.copy() if isinstance(X, pd.DataFrame) else X[::-1].copy()
        if isinstance(X, pd.DataFrame):
            X.iloc[:, :] = Y
        else:
            X[:] = Y
    elif how != "none":
        j = "abc".index(how)
        if isinstance(X, pd.DataFrame):
            X.iloc[step % len(X), j] = v[step % 4]
            X.iloc[-1, j] = v[(step + 1) % 4]
        else:
            X[step % len(X), j] = v[step % 4]
            X[-1, j] = v[(step + 1) % 4]


def inplace_cases(tier):
    out = []
    for kind in REGS + ["expo", "nbinomc", "aquant", "gclf", "bins", "ecdf"]:
        for box in ("frame", "array"):
            if kind == "nbinomc" and box == "array":
                continue
            for k, seq in enumerate(itertools.product(EDITS, repeat=3 if tier == "quick" else 4)):
                if tier == "quick" and kind not in ("poisson", "bins") and k % 5:
                    continue
                out.append({"kind": kind, "box": box, "seq": list(seq)})
    return out


_PAIRS = {}


def inplace_objects(kind, box):
    """Two objects trained alike and a function that scores with one of them."""
    if (kind, box) not in _PAIRS:
        T = np.array([[0, 0, 0], [0, 1, 1], [1, 0, 0], [1, 1, 1], [-1, 1, 0], [0, 0, 1], [1, NAN, 0]], dtype=float)
        names = ["a", "b", "c"] if box == "frame" else [0, 1, 2]
        props = dict(zip(names, (U | flags.HAS_MISSING, O | flags.HAS_MISSING, C | flags.HAS_MISSING)))
        if kind in ("bins", "ecdf"):
            cls = BinNumberTransformer if kind == "bins" else ECdfTransformer
            X = pd.DataFrame(T, columns=names) if box == "frame" else T
            pair = [cls(n_bins=4, feature_properties=props).fit(X) for _ in range(2)]
            use = lambda m, Q: [np.asarray(m.transform(Q), dtype=float)]  # noqa: E731
        else:
            X = frame({"a": T[:, 0], "b": T[:, 1], "c": T[:, 2]}, kind)
            y = np.array([1.0, 0.0, 0.0, 1.0, 1.0, 0.0, 1.0])
            kw = {}
            if kind == "expo":
                kw = {"external": [names[1]], "external_colname": "price" if box == "frame" else 3}
            groups = [names[0], [names[0], names[1]], names[2]]
            pair = [make(kind, groups, props, maximal_iterations=2, **kw).fit(X if box == "frame" else X.values, y) for _ in range(2)]
            use = lambda m, Q: [raw_predict(kind, m, Q), m.predict(Q)] + list(m.get_feature_contributions(Q).values())  # noqa: E731
        _PAIRS[kind, box] = pair, use
    return _PAIRS[kind, box]


def check_inplace(case, rec):
    kind, box = case["kind"], case["box"]
    (m, ref), use = inplace_objects(kind, box)
    X = frame({"a": [0, 1, 0], "b": [1, 0, 0], "c": [0, 0, 1]}, kind if kind not in ("bins", "ecdf") else None)
    X = X if box == "frame" else X.values.copy()
    held = []
    for step, how in enumerate([None] + case["seq"]):
        if how is not None:
            edit(X, how, step)
        other = X.copy()
        held.append(other)
        got, want = use(m, X), use(ref, other)
        for g, w in zip(got, want):
            close(g, w, "%s, %s changed in place by %s: results against those for a copy of the table" % (kind, box, case["seq"][:step]), 1e-12, 1e-13)
        rec.op(2)
    rec.trace()
    rec.state(kind, box, np.asarray(X, dtype=float))


def spaces(tier):
    return [
        Space("batches", lambda: batch_cases(tier), check_batch, "all ordered batches with repetition of <= 3 rows out of 8 (missing, infinite, unseen), 11-13 estimators x structures x prior", warm=warm_basic, chunk=2),
        Space("containers", lambda: container_cases(tier), check_container, "27 equivalent containers (types, column orders, extra columns, row labels)"),
        Space("columns", lambda: column_cases(tier), check_columns, "13 estimators x 6 structures x weight/prior/exponent columns: the reported required columns"),
        Space("arrays", lambda: array_cases(tier), check_array, "array input against data frames"),
        Space("sequences", lambda: seq_cases(tier), check_seq, "all sequences of %d calls out of 7" % (3 if tier == "quick" else 4)),
        Space("in-place", lambda: inplace_cases(tier), check_inplace, "all sequences of %d changes out of 5 of the same table object between calls, 10 estimators and both binners, data frames and arrays (every fifth in quick but for Poisson and the binner)" % (3 if tier == "quick" else 4)),
        Space("binners", lambda: binner_cases(tier), check_binner, "all ordered batches of <= 3 of 9 rows for both binners"),
        Space("sizes", lambda: size_cases(tier), check_size, "11 estimators x 2 structures x 10 batch sizes up to 70000 x 2 row orders"),
        Space("binner-sizes", lambda: [{"tr": tr, "props": p, "n": n} for tr in ("BinNumberTransformer", "ECdfTransformer") for p in ("none", "mixed") for n in SIZES], check_binner_size, "training tables and batches of 9 to 70000 rows for both binners; 64 rows alone against the batch"),
    ]
