"""C02: equi-statistical continuous binning, weights as multiplicities."""
import itertools

import numpy as np
import pandas as pd

from cyclic_boosting import binning, utils
from cyclic_boosting.binning import BinNumberTransformer, ECdfTransformer
from mc.core import close, ensure, show
from mc.est import C, O, U, warm_basic
from mc.run import Space

NAN = float("nan")
ASSUMPTIONS = ["minimum bin share is the documented (1 - tolerance)/n_bins, compared with 1e-7 slack for the CDF epsilon"]
VALS = [-3.0, 0.5, 1.0, 4.0, 10.0, 11.0, 12.5]


def table(t):
    return t.bins_and_cdfs_[0][2]


def share_le(vals, counts, x):
    tot = float(sum(counts))
    return sum(c for v, c in zip(vals, counts) if v <= x) / tot


def check_guarantees(tab, vals, counts, nb, tol):
    vals = [v for v, c in zip(vals, counts) if c > 0]
    counts = [c for c in counts if c > 0]
    e, cdf = tab[:, 0], tab[:, 1]
    ensure(len(e) - 1 <= nb, "%d bins, %d requested" % (len(e) - 1, nb))
    ensure(e[0] == vals[0] and e[-1] == vals[-1], "edges %s do not span [%s, %s]" % (show(e), vals[0], vals[-1]))
    ensure(all(x in vals for x in e), "edge is not a training value: %s" % show(e))
    ensure((np.diff(e[1:]) > 0).all(), "edges not increasing %s" % show(e))
    want = [0.0] + [share_le(vals, counts, x) for x in e[1:]]
    close(cdf, want, "cumulative shares at %s" % show(e), 1e-9, 1e-9)
    shares = np.diff(want)
    ensure((shares >= (1 - tol) / nb - 1e-7).all(),
           "bin share %s below the guaranteed %.6f (edges %s, counts %s)" % (show(shares), (1 - tol) / nb, show(e), counts))


def cdf_of(tab, x):
    """Linear interpolation by definition."""
    if not np.isfinite(x):
        return NAN
    e, c = tab[:, 0], tab[:, 1]
    if x >= e[-1]:
        return c[-1]
    if x < e[0]:
        return c[0]
    for i in range(len(e) - 2, -1, -1):
        if e[i] <= x:
            if e[i + 1] == e[i]:
                return c[i + 1]
            return c[i] + (c[i + 1] - c[i]) * (x - e[i]) / (e[i + 1] - e[i])
    return NAN


def cases(tier):
    out = []
    m, k = (5, 4) if tier == "quick" else (6, 4)
    for counts in itertools.product(range(k), repeat=m):
        if sum(counts) == 0:
            continue
        nbs = (2, 3, 5, 8) if tier == "quick" else (2, 3, 4, 5, 8)
        for nb in nbs:
            for tol in (0.1,) if tier == "quick" and nb in (2, 8) else (0.0, 0.1, 0.45):
                out.append({"counts": list(counts), "n_bins": nb, "tol": tol})
    # spread weights: large ratios
    for counts in itertools.product((0, 1, 7, 50), repeat=4 if tier == "quick" else 5):
        if sum(counts) == 0:
            continue
        for nb in (2, 4, 10, 100):
            out.append({"counts": list(counts), "n_bins": nb, "tol": 0.1})
    return out


# many distinct values of different magnitude and spacing
SCALES = {
    "plain": lambda i: float(i),
    "milli": lambda i: i * 1e-3,
    "mega": lambda i: i * 1e6 + 0.5,
    "squares": lambda i: float(i) ** 2 - 40.0,
    "offset": lambda i: 1e5 + i * 0.25,
    "fine": lambda i: 1.0 + i * 1e-6,
}
COUNTS = {
    "ones": lambda i, n: 1,
    "rising": lambda i, n: 1 + i % 5,
    "holes": lambda i, n: i % 3,
    "heavy": lambda i, n: n if i == n // 3 else 1,
    "ends": lambda i, n: n if i in (0, n - 1) else 1,
}


def many_cases(tier):
    out = []
    for n in (9, 40, 101, 257) if tier == "quick" else (9, 12, 40, 100, 101, 257, 1500):
        for counts in COUNTS:
            for scale in SCALES:
                for nb in (2, 7, 10, 100, 300):
                    for tol in (0.1,) if tier == "quick" and nb != 7 else (0.0, 0.1, 0.45):
                        out.append({"many": n, "pattern": counts, "scale": scale, "n_bins": nb, "tol": tol})
    return out


def check_many(case, rec):
    n = case["many"]
    check(dict(case, counts=[COUNTS[case["pattern"]](i, n) for i in range(n)], vals=[SCALES[case["scale"]](i) for i in range(n)]), rec)


def check(case, rec):
    counts, nb, tol = case["counts"], case["n_bins"], case["tol"]
    vals = case.get("vals") or VALS[: len(counts)]
    rep = [v for v, c in zip(vals, counts) for _ in range(c)]
    rep = rep[1::2] + rep[0::2]  # not sorted
    t = ECdfTransformer(n_bins=nb, tolerance=tol).fit(pd.DataFrame({"x": rep}))
    rec.op()
    tab = table(t)
    check_guarantees(tab, vals, counts, nb, tol)
    rec.trace()
    # as weights, with zero-weight rows, missing rows and split rows, scaled weights
    for scale in (1.0, 0.25):
        xs, ws = [], []
        for v, c in zip(vals, counts):
            xs.append(v)
            ws.append(c * scale)
        if scale != 1.0 and counts[0] > 1:
            ws[0] -= scale
            xs.append(vals[0])
            ws.append(scale)
        xs += [NAN, NAN]
        ws += [1.0, 3.0]
        W = pd.DataFrame({"x": xs, "w": ws})
        tw = ECdfTransformer(n_bins=nb, tolerance=tol, weight_column="w").fit(W)
        rec.op()
        close(table(tw), tab, "bins from weights %s (scale %s) against repeated rows" % (counts, scale), 1e-9, 1e-9)
        rec.trace()
    bw = BinNumberTransformer(n_bins=nb, tolerance=tol, weight_column="w").fit(W)
    br = BinNumberTransformer(n_bins=nb, tolerance=tol).fit(pd.DataFrame({"x": rep}))
    gap = min(1.0, min([b - a for a, b in zip(vals, vals[1:])] or [1.0]))
    q = sorted(set(vals + [v + 0.3 * gap for v in vals] + [v - 0.2 * gap for v in vals] + [vals[0] - 100.0, vals[-1] + 100.0]))
    gw = bw.transform(pd.DataFrame({"x": q, "w": 1.0}))["x"].values
    gr = br.transform(pd.DataFrame({"x": q}))["x"].values
    rec.op(4)
    close(gw, gr, "bin numbers from weights against repeated rows", 0, 0)
    close(table(br), tab, "bins of the two transformers", 1e-9, 1e-9)
    for bounds in (binning.get_bin_bounds, utils.get_bin_bounds):
        close(bounds([br], "x"), tab[:, 0], "reported bin boundaries", 1e-12, 1e-12)
        ensure(bounds([br], "w") is None and bounds(None, "x") is None, "bin boundaries of an unknown column")
    # categorical columns: zero-weight categories are ignored as well
    cu = ECdfTransformer(feature_properties={"x": U}, weight_column="w").fit(W)
    rec.op()
    pos = [v for v, c in zip(vals, counts) if c > 0]
    close(table(cu)[1:, 0], pos, "categories with positive weight", 0, 0)
    close(table(cu)[1:, 1], [share_le(vals, counts, v) for v in pos], "category shares", 1e-9, 1e-9)
    gu = cu.transform(pd.DataFrame({"x": vals + [NAN, 0.77], "w": 1.0}))["x"].values
    close(gu, [share_le(vals, counts, v) if c > 0 else NAN for v, c in zip(vals, counts)] + [NAN, NAN], "category CDF", 1e-9, 1e-9)
    rec.op()
    # CDF transform
    got = t.transform(pd.DataFrame({"x": q + [NAN]}))["x"].values
    rec.op()
    close(got, [cdf_of(tab, x) for x in q] + [NAN], "CDF transform of %s with table %s" % (show(q), show(tab)), 1e-7, 1e-7)
    ensure((np.diff(got[:-1]) >= -1e-12).all(), "CDF transform decreases: %s" % show(got))
    rec.trace()
    rec.state(tab, got)
    rec.outcome("bins=%d" % (len(tab) - 1))


def spaces(tier):
    return [
        Space("counts", lambda: cases(tier), check,
              "all multiplicity vectors 0..3 over %d values (and {0,1,7,50} over 4-5 values) x bin counts x tolerances, "
              "each as repeated rows and as weights" % (5 if tier == "quick" else 6), warm=warm_basic),
        Space("many", lambda: many_cases(tier), check_many, "9 to 257 (1500) distinct values x 5 multiplicity patterns x 6 scales x up to 300 bins x tolerances"),
    ]
