"""C01: bin numbers are a faithful, order-preserving code of every column."""
import itertools

import numpy as np
import pandas as pd

from cyclic_boosting import flags
from cyclic_boosting.binning import BinNumberTransformer
from mc.core import close, ensure, fail, show
from mc.est import C, O, U, warm_basic
from mc.run import Space

NAN, INF = float("nan"), float("inf")

ASSUMPTIONS = [
    "values are compared at distances well above the documented comparison tolerance (1e-9 of the smallest bin width)",
    "infinite values occur only in data to be transformed, not in training data",
]

CFLAGS = {
    "cont": C,
    "cont_missing": C | flags.HAS_MISSING,
    "mono": flags.IS_MONOTONIC | flags.INCREASING,
    "linear": C | flags.IS_LINEAR,
    "seasonal": C | flags.IS_SEASONAL,
    "cont_magic": C | flags.HAS_MAGIC_INT_MISSING,
    "cont_mnl": C | flags.MISSING_NOT_LEARNED,
}
DFLAGS = {
    "unordered": U,
    "ordered": O,
    "unordered_missing": U | flags.HAS_MISSING,
    "ordered_mnl": O | flags.MISSING_NOT_LEARNED,
    "unordered_magic": U | flags.HAS_MAGIC_INT_MISSING,
}
ALLF = dict(CFLAGS, **DFLAGS)


def is_cont(flag):
    return flag in CFLAGS


def is_magic(flag):
    return flag.endswith("magic")


def missing(x, flag):
    return not np.isfinite(x) or (is_magic(flag) and x in (-9.0, -999.0))


def queries(train):
    vals = sorted({x for x in train if np.isfinite(x)})
    q = list(vals)
    for a, b in zip(vals[:-1], vals[1:]):
        q += [a + 0.25 * (b - a), (a + b) / 2, b - 0.01 * (b - a)]
    if vals:
        w = vals[-1] - vals[0] or 1.0
        q += [vals[0] - 0.5 * w, vals[0] - 1e3 * w, vals[-1] + 0.5 * w, vals[-1] + 1e3 * w]
    # the documented comparison tolerance is 1e-9 of the smallest bin width
    tol = 1e-8 * max([b - a for a, b in zip(vals[:-1], vals[1:])], default=1.0)
    q += [x for x in (-9.0, -999.0, 0.0, 1.0, -1.0, 123.0) if all(x == v or abs(x - v) > tol for v in vals)]
    q += [NAN, INF, -INF]
    return q


def expected(x, flag, edges, train_distinct):
    """The bin number by definition."""
    if missing(x, flag) or edges is None:
        return -1
    if is_cont(flag):
        for i, e in enumerate(edges[1:]):
            if x <= e:
                return i
        return len(edges) - 2
    return train_distinct.index(x) if x in train_distinct else -1


def check_column(train, flag, edges, got_train, got_query, qs, weights=None):
    fin = [x for i, x in enumerate(train) if not np.isnan(x) and (weights is None or weights[i] > 0)]
    distinct = sorted(set(fin))
    if not distinct:
        ensure(edges is None, "a column without values has bins: %s" % show(edges))
    else:
        ensure(edges is not None, "no bins learned from %s" % show(train))
        e = np.asarray(edges, dtype=float)
        if is_cont(flag):
            ensure(len(e) >= 2, "no bin at all: %s" % show(e))
            ensure(e[0] == distinct[0] and e[-1] == distinct[-1], "edges %s do not span %s" % (show(e), show(distinct)))
            ensure(all(v in distinct for v in e), "edge not a training value: %s" % show(e))
            ensure((np.diff(e[1:]) > 0).all(), "edges not increasing: %s" % show(e))
        else:
            ensure(len(e) - 1 == len(distinct), "number of categories: %d instead of %d" % (len(e) - 1, len(distinct)))
    want = [expected(x, flag, edges, distinct) for x in qs]
    close(got_query, want, "bin numbers of queries %s (%s, edges %s)" % (show(qs), flag, show(edges)), 0, 0)
    want = [expected(x, flag, edges, distinct) for x in train]
    close(got_train, want, "bin numbers of training values %s (%s, edges %s)" % (show(train), flag, show(edges)), 0, 0)
    if distinct and not is_magic(flag):
        used = sorted({int(b) for i, b in enumerate(got_train) if b >= 0 and (weights is None or weights[i] > 0)})
        ensure(used == list(range(len(edges) - 1)), "bins used by the training rows %s, bins learned %d" % (used, len(edges) - 1))


def edges_of(t, col):
    b = t.get_feature_bin_boundaries()[col]
    return None if b is None else b[:, 0]


# --- single column ---------------------------------------------------------


def single_cases(tier):
    out = []
    base = [-5.0, 0.0, 0.1, 2.0, 7.0, NAN]
    n_max = 5 if tier == "quick" else 7
    for n in range(1, n_max + 1):
        for train in itertools.combinations_with_replacement(base, n):
            for nb in (2, 3, 4, 100):
                for flag in ("cont",) if nb != 3 else ("cont", "mono", "linear", "seasonal", "cont_missing", "cont_mnl"):
                    out.append({"train": list(train), "flag": flag, "n_bins": nb})
            for flag in DFLAGS:
                out.append({"train": list(train), "flag": flag, "n_bins": 2})
    magic = [-999.0, -9.0, 0.0, 3.0, NAN]
    for n in range(1, n_max):
        for train in itertools.combinations_with_replacement(magic, n):
            for flag in ("cont_magic", "unordered_magic", "cont", "unordered"):
                out.append({"train": list(train), "flag": flag, "n_bins": 3})
    # row order and precision: all sequences of few values
    for alpha in ([1e-7, 2e-7, -1e-7, 4e-7], [1e9, 1e9 + 64, -3e9, 0.0]):
        for n in range(1, 4 if tier == "quick" else 5):
            for train in itertools.product(alpha, repeat=n):
                for flag in ("cont", "unordered", "ordered"):
                    out.append({"train": list(train), "flag": flag, "n_bins": 3})
    return out


def check_single(case, rec):
    train, flag, nb = case["train"], case["flag"], case["n_bins"]
    qs = queries(train)
    prop = {"x": ALLF[flag]}
    X = pd.DataFrame({"x": train})
    Q = pd.DataFrame({"x": qs})
    t = BinNumberTransformer(n_bins=nb, feature_properties=prop)
    t.fit(X)
    rec.op()
    edges = edges_of(t, "x")
    got_t, got_q = t.transform(X)["x"].values, t.transform(Q)["x"].values
    rec.op(2)
    check_column(train, flag, edges, got_t, got_q, qs)
    # one row at a time, reversed order, array container
    for x, b in zip(qs, got_q):
        one = t.transform(pd.DataFrame({"x": [x]}))["x"].values
        rec.op()
        ensure(int(one[0]) == int(b), "value %r alone gets bin %s, in a batch %s" % (x, one[0], b))
    ta = BinNumberTransformer(n_bins=nb, feature_properties={0: ALLF[flag]})
    got_a = ta.fit_transform(np.array(train, dtype=float)[:, None])
    rec.op()
    close(got_a[:, 0], got_t, "array container", 0, 0)
    close(ta.transform(np.array(qs)[:, None])[:, 0], got_q, "array container, queries", 0, 0)
    rec.op()
    rec.trace()
    rec.state(edges if edges is not None else "none", got_q)
    rec.outcome("bins=%s" % (0 if edges is None else len(edges) - 1))


# --- many categories / many bins (integer width of the result) ----------------


def wide_cases(tier):
    sizes = [120, 127, 128, 129, 200, 255, 256, 257, 300, 32767, 32768, 32770]
    if tier != "quick":
        sizes += [65535, 65536, 65540]
    return [
        {"n": n, "flag": f, "order": o, "c": c}
        for n in sizes
        for f in ("unordered", "ordered", "cont")
        for o in ("up", "down", "stride")
        for c in ("df", "arr")
    ]


def check_wide(case, rec):
    n, flag = case["n"], case["flag"]
    v = np.arange(n, dtype=float) * 1.5 - 40.0
    if case["order"] == "down":
        v = v[::-1].copy()
    elif case["order"] == "stride":
        v = v[(np.arange(n) * 7919) % n] if n % 7919 else v
    want = np.round((v + 40.0) / 1.5)
    if case["c"] == "df":
        t = BinNumberTransformer(n_bins=n, feature_properties={"x": ALLF[flag]})
        got = t.fit_transform(pd.DataFrame({"x": v}))["x"].values
        q = t.transform(pd.DataFrame({"x": [v.min() - 1, v.max() + 1, NAN, v.max()]}))["x"].values
    else:
        t = BinNumberTransformer(n_bins=n, feature_properties={0: ALLF[flag]})
        got = t.fit_transform(v[:, None])[:, 0]
        q = t.transform(np.array([[v.min() - 1], [v.max() + 1], [NAN], [v.max()]]))[:, 0]
    rec.op(2)
    if flag != "cont":
        close(got, want, "%d categories" % n, 0, 0)
        close(q, [-1, -1, -1, n - 1], "out-of-range categories", 0, 0)
    else:
        g = got[np.argsort(v, kind="stable")].astype(int)
        ensure(g[0] == 0 and (np.diff(g) >= 0).all() and (np.diff(g) <= 1).all(), "bins not ascending without gaps")
        ensure(g[-1] + 1 <= n, "more bins than requested")
        close(q, [0, g[-1], -1, g[-1]], "out-of-range values", 0, 0)
    rec.trace()
    rec.state(n, flag, got)


# --- several columns ------------------------------------------------------------

COLS = {
    "a": [3.0, 1.0, NAN, 3.0, 2.0, 9.0],
    "b": [5.0, 5.0, 7.0, -9.0, 6.0, 5.0],
    "c": [0.5, 0.25, 0.75, 1.5, -2.0, NAN],
}
QCOLS = {
    "a": [9.0, NAN, 1.5, 100.0, 3.0],
    "b": [7.0, 5.0, -9.0, INF, 6.5],
    "c": [0.3, 3.0, -7.0, NAN, 0.5],
}


def multi_cases(tier):
    out = []
    fl = ["cont", "unordered", "cont_magic", "unordered_magic", "ordered", None]
    for fa, fb, fc in itertools.product(fl, repeat=3):
        for cont in ("df", "arr", "df_int", "df_swapped"):
            for nbk in ("int", "dict"):
                for w in (False, True):
                    if tier == "quick" and w and cont in ("df_swapped",):
                        continue
                    out.append({"flags": [fa, fb, fc], "container": cont, "n_bins": nbk, "weights": w})
    for cont in ("df", "arr", "df_int"):
        for w in (False, True):
            out.append({"flags": None, "container": cont, "n_bins": "int", "weights": w})
    return out


def check_multi(case, rec):
    fl, cont, w = case["flags"], case["container"], case["weights"]
    names = ["a", "b", "c"]
    cols = {k: list(v) for k, v in COLS.items()}
    q = {k: list(v) for k, v in QCOLS.items()}
    if cont == "df_int":
        cols["b"] = [5, 5, 7, -9, 6, 5]
        q["b"] = [7, 5, -9, 8, 6]
    wts = None
    if w:
        wts = [1.0, 2.0, 1.0, 0.5, 3.0, 1.0]
        cols["w"] = wts
        q["w"] = [1.0, 1.0, 5.0, 1.0, 0.25]
        names = names + ["w"]
    keys = names if cont != "arr" else list(range(len(names)))
    flag_of = {k: ("cont" if fl is None else fl[i]) for i, k in enumerate(keys[:3])}
    props = None if fl is None else {k: ALLF[f] for k, f in flag_of.items() if f is not None}
    nb = {"a": 2, "b": 3, "c": 4}
    nbins = 3 if case["n_bins"] == "int" else {k: nb["abc"[i]] for i, k in enumerate(keys[:3])}
    t = BinNumberTransformer(n_bins=nbins, feature_properties=props, weight_column=keys[3] if w else None)
    if cont == "arr":
        X = np.column_stack([np.array(cols[n], dtype=float) for n in names])
        Q = np.column_stack([np.array(q[n], dtype=float) for n in names])
    else:
        X, Q = pd.DataFrame(cols)[names], pd.DataFrame(q)[names]
        X.index = [10, 3, 7, 1, 0, 5]
    if cont == "df_swapped":
        Q = Q[names[::-1]]
    got_t = t.fit_transform(X)
    rec.op()
    got_q = t.transform(Q)
    rec.op()
    get = (lambda D, k: D[k].values) if cont != "arr" else (lambda D, k: D[:, k])
    if cont != "arr":
        ensure(list(got_q.columns) == list(Q.columns), "columns changed: %s" % list(got_q.columns))
        ensure(list(got_t.index) == list(X.index), "index changed")
    for i, k in enumerate(keys):
        if i == 3 or flag_of[k] is None:
            close(get(got_t, k), get(X, k), "untouched column %s (training)" % k, 0, 0)
            close(get(got_q, k), get(Q, k), "untouched column %s" % k, 0, 0)
            continue
        edges = edges_of(t, k)
        check_column(list(map(float, cols[names[i]])), flag_of[k], edges, get(got_t, k), get(got_q, k),
                     list(map(float, q[names[i]])), wts)
        if is_cont(flag_of[k]) and edges is not None:
            lim = nbins if isinstance(nbins, int) else nbins[k]
            ensure(len(edges) - 1 <= lim, "column %s has %d bins, requested %d" % (k, len(edges) - 1, lim))
    rec.trace()
    rec.state(got_t, got_q)


def spaces(tier):
    n = 5 if tier == "quick" else 7
    return [
        Space("single", lambda: single_cases(tier), check_single,
              "all multisets of <= %d training values from 6 (and 5 magic, 4 extreme) values x bin counts x flags; 20+ query values each" % n, warm=warm_basic),
        Space("wide", lambda: wide_cases(tier), check_wide, "category counts around the integer-width limits", chunk=4),
        Space("multi", lambda: multi_cases(tier), check_multi, "3 columns x 6 flag choices each x containers x bin-count forms x weights"),
    ]
