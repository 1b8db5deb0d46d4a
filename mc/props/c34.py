"""C34: weighted statistics used for analysis equal their definitions."""
import itertools
import logging
import math
import warnings

from unittest import mock

import numpy as np
import pandas as pd

from cyclic_boosting import observers, utils
from cyclic_boosting.observers import calc_in_sample_histograms
from cyclic_boosting.utils import ConvergenceError
from mc import est
from mc.core import close, ensure, is_close
from mc.run import Space
from mc.tables import PROPS, STRUCTS, build, tables, thin

ASSUMPTIONS = ["With equal weights quantiles interpolate linearly between order statistics, otherwise they are the smallest value reaching the weight share."]
SIGMA1, SIGMA2 = 0.15865, 0.02275


def silence():
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


# --- textbook definitions ------------------------------------------------


def lower_quantile(y, w, q):
    """Smallest value whose cumulated weight reaches the share q."""
    total = sum(w)
    acc = 0.0
    for v, x in sorted(zip(y, w)):
        acc += x
        if acc >= total * q:
            return v
    return min(y)


def linear_quantile(y, q):
    s = sorted(y)
    pos = (len(s) - 1) * q
    i = int(math.floor(pos))
    j = min(i + 1, len(s) - 1)
    return s[i] + (s[j] - s[i]) * (pos - i)


def group_stats(g, y, w):
    out = {}
    even = w is None or len(set(w)) == 1
    for k in sorted(set(g)):
        ys = [b for a, b in zip(g, y) if a == k]
        ws = [1.0] * len(ys) if w is None else [b for a, b in zip(g, w) if a == k]
        total = sum(ws)
        if even:
            mean = sum(ys) / len(ys)
            qs = [linear_quantile(ys, q) for q in (0.5, SIGMA1, 1 - SIGMA1, SIGMA2, 1 - SIGMA2)]
        else:
            mean = sum(a * b for a, b in zip(ys, ws)) / total if total else float("nan")
            qs = [lower_quantile(ys, ws, q) for q in (0.5, SIGMA1, 1 - SIGMA1, SIGMA2, 1 - SIGMA2)]
        out[k] = (mean, qs[0], total, [v - qs[0] for v in qs[1:]])
    return out


def container(v, how):
    if v is None:
        return None
    if how == "list":
        return list(v)
    if how == "series":
        return pd.Series(list(v))
    return np.array(v)


# --- grouped means, medians, quantiles -----------------------------------


def group_cases(tier):
    rows = list(itertools.product((0.0, 1.0, -2.5), (0, 1), (1.0, 2.0, 0.5)))
    out = []
    for n in (1, 2, 3, 4):
        full = list(itertools.product(rows, repeat=n))
        step = {1: 1, 2: 1, 3: 3, 4: 97}[n] if tier == "quick" else {1: 1, 2: 1, 3: 1, 4: 11}[n]
        for i, t in enumerate(thin(full, step, n % step)):
            out.append({"rows": [list(r) for r in t], "how": ["array", "list", "series"][i % 3]})
    # no weights, equal weights, zero weights
    rows = list(itertools.product((0.0, 1.0, -2.5, 7.0), (0, 3)))
    for n in (1, 2, 3, 4):
        for t in thin(list(itertools.product(rows, repeat=n)), 5 if n == 4 and tier == "quick" else 1, 0):
            for w in (None, 1.0, 2.0):
                if n == 4 and w == 1.0:
                    continue
                out.append({"rows": [[a, b, w] for a, b in t], "how": "array"})
    zero = list(itertools.product((0.0, 1.0, 3.0), (0, 1), (0.0, 2.0)))
    for t in thin(list(itertools.product(zero, repeat=3)), 3 if tier == "quick" else 1, 1):
        out.append({"rows": [list(r) for r in t], "how": "array"})
    return out


def check_group(case, rec):
    silence()
    rows = case["rows"]
    y, g = [r[0] for r in rows], [r[1] for r in rows]
    w = None if rows[0][2] is None else [r[2] for r in rows]
    how = case["how"]
    means, medians, counts, errors = utils.calc_means_medians(container(g, how), container(y, how), container(w, how))
    rec.op()
    want = group_stats(g, y, w)
    keys = sorted(want)
    tag = "values %s, groups %s, weights %s" % (y, g, w)
    for name, s in (("means", means), ("medians", medians), ("counts", counts)):
        ensure(list(s.index) == keys, lambda: "%s: %s are given for groups %s" % (tag, name, list(s.index)))
    close(means.values, [want[k][0] for k in keys], tag + ": means", 1e-12, 1e-12)
    close(medians.values, [want[k][1] for k in keys], tag + ": medians", 1e-12, 1e-12)
    close(np.asarray(counts, dtype=float), [want[k][2] for k in keys], tag + ": counts", 1e-12, 1e-12)
    ensure(len(errors) == 4, lambda: tag + ": %d error bands" % len(errors))
    for i in range(4):
        close(errors[i].values, [want[k][3][i] for k in keys], "%s: error band %d" % (tag, i), 1e-12, 1e-12)
    ww = w or [1.0] * len(y)
    for q in (0.1, 0.25, 0.5, 0.9):
        got = utils.calc_weighted_quantile(container(g, how), container(y, how), container(ww, how), q)
        rec.op()
        ensure(list(got.index) == keys, lambda: "%s: quantiles are given for groups %s" % (tag, list(got.index)))
        close(got.values, [lower_quantile([b for a, b in zip(g, y) if a == k], [b for a, b in zip(g, ww) if a == k], q) for k in keys], "%s: quantile %s" % (tag, q), 1e-12, 1e-12)
    rec.trace()
    rec.state(y, g, w)
    rec.outcome("none" if w is None else "equal" if len(set(w)) == 1 else "unequal")


# --- whole-sample statistics ---------------------------------------------


def sample_cases(tier):
    out = []
    for n in (1, 2, 3, 4):
        full = list(itertools.product(itertools.product((0.0, 1.0, 2.0, 5.0), (1.0, 2.0, 3.0)), repeat=n))
        for t in thin(full, (7 if tier == "quick" else 1) if n == 4 else 1, 3):
            out.append({"y": [r[0] for r in t], "w": [r[1] for r in t]})
    for t in itertools.product(itertools.product((0.0, 1.0, 2.0), (0.0, 0.5, 1.0)), repeat=3):
        if sum(r[1] for r in t) > 0:
            out.append({"y": [r[0] for r in t], "w": [r[1] for r in t]})
    return out


def spread_quantile(y, w, q):
    """Quantile of a discrete sample spread linearly over ties."""
    rows = sorted((a, b) for a, b in zip(y, w))
    total = sum(w)
    acc = 0.0
    at = None
    for a, b in rows:
        acc += b
        if acc >= total * q:
            at = a
            break
    below = sum(b for a, b in rows if a < at)
    inside = [b for a, b in rows if a == at and b > 0]
    if len(inside) > 1:
        last = below + sum(inside) - 1
        if last > below:
            at += min(max((int(total * q) - below) / (last - below), 0.0), 1.0)
    return at


def check_sample(case, rec):
    silence()
    y, w = case["y"], case["w"]
    ya, wa = np.array(y), np.array(w)
    tag = "values %s, weights %s" % (y, w)
    total = sum(w)
    mean = sum(a * b for a, b in zip(y, w)) / total
    sd = math.sqrt(sum(b * (a - mean) ** 2 for a, b in zip(y, w)) / total)
    close(utils.weighted_stddev(ya, wa), sd, tag + ": standard deviation", 1e-12, 1e-12)
    rec.op()
    for q in (0.1, 0.3, 0.5, 0.75, 0.95):
        got = utils.continuous_quantile_from_discrete_pdf(ya, q, wa)
        rec.op()
        close(got, spread_quantile(y, w, q), "%s: quantile %s" % (tag, q), 1e-12, 1e-12)
        ensure(lower_quantile(y, w, q) <= got + 1e-12 and got <= lower_quantile(y, w, q) + 1 + 1e-12, lambda: "%s: quantile %s is %s" % (tag, q, got))
        if all(v == int(v) for v in w):
            rep = [a for a, b in zip(y, w) for _ in range(int(b))]
            if len(set(rep)) == len(rep):
                close(utils.continuous_quantile_from_discrete_pdf(np.array(rep), q, np.ones(len(rep))), got, "%s: quantile %s with repeated rows" % (tag, q), 1e-12, 1e-12)
    # shares
    close(utils.get_normalized_values(w), [v / total for v in w], tag + ": shares", 1e-12, 1e-12)
    # straight line through the points
    x = np.arange(len(y), dtype=float)
    if sum(v > 0 for v in w) >= 2:
        alpha, beta = utils.linear_regression(x, ya, wa)
        r = [b - alpha - beta * a for a, b in zip(x, y)]
        close([sum(a * b for a, b in zip(w, r)), sum(a * b * c for a, b, c in zip(w, r, x))], [0.0, 0.0], tag + ": normal equations of the regression line", 1e-9, 1e-8)
    rec.op(2)
    rec.trace()
    rec.state(y, w)
    rec.outcome("sample")


# --- histograms ----------------------------------------------------------


def histogram_cases(tier):
    out = []
    vals = (0.0, 0.3, 1.0, -2.0, 7.5)
    for n in (1, 2, 3, 4):
        for t in thin(list(itertools.product(vals, repeat=n)), 2 if n == 4 and tier == "quick" else 1, 0):
            for nb in (1, 2, 3, 7, 100):
                if n == 4 and nb in (2, 100) and tier == "quick":
                    continue
                out.append({"x": list(t), "nbins": nb})
    return out


def check_histogram(case, rec):
    silence()
    x, nb = case["x"], case["nbins"]
    tag = "values %s in %d bins" % (x, nb)
    edges, centres = utils.calc_linear_bins(np.array(x), nb)
    lo, hi = min(x), max(x)
    close(edges, [lo + (hi - lo) * i / nb for i in range(nb + 1)], tag + ": boundaries", 1e-12, 1e-12)
    close(centres, [lo + (hi - lo) * (i + 0.5) / nb for i in range(nb)], tag + ": centres", 1e-12, 1e-12)
    rec.op()
    if hi > lo:
        probe = sorted(set(x + [float(v) for v in edges] + [float(v) for v in centres] + [lo - 1, hi + 1]))
        b = utils.digitize(np.array(probe), edges)
        rec.op()
        ensure(len(b) == len(probe), lambda: tag + ": %d bin numbers" % len(b))
        for v, k in zip(probe, b):
            if v < lo:
                ensure(k == 0, lambda: "%s: %s is put into bin %s" % (tag, v, k))
            elif v >= hi:
                ensure(k == nb, lambda: "%s: %s is put into bin %s" % (tag, v, k))
            else:
                ensure(1 <= k <= nb and edges[k - 1] <= v < edges[k], lambda: "%s: %s is put into bin %s" % (tag, v, k))
    else:
        b = utils.digitize(np.array(x), edges)
        ensure(len(set(int(v) for v in b)) == 1 and 1 <= b[0] <= nb, lambda: "%s: bins %s" % (tag, b))
    rec.trace()
    rec.state(x, nb)
    rec.outcome("histogram")


def diagonal_cases(tier):
    out = []
    rows = list(itertools.product((0.0, 1.0, 0.004, 3.0), (1.0, 4.0), (1.0, 2.0)))
    for n in (1, 2, 3):
        step = (5 if tier == "quick" else 1) if n == 3 else 1
        for i, t in enumerate(thin(list(itertools.product(rows, repeat=n)), step, 0)):
            out.append({"rows": [list(r) for r in t], "quantile": [None, None, 0.3][i % 3]})
    zero = list(itertools.product((0.0, 1.0), (1.0, 4.0), (0.0, 2.0)))
    for t in itertools.product(zero, repeat=3):
        if any(r[2] for r in t):
            out.append({"rows": [list(r) for r in t], "quantile": None})
    cls = list(itertools.product((0.2, 0.7), (0.0, 1.0), (1.0, 2.0)))
    for t in itertools.product(cls, repeat=2):
        out.append({"rows": [list(r) for r in t], "quantile": None})
    return out


def check_diagonal(case, rec):
    """Predictions against truth as recorded for the in-sample plot."""
    silence()
    p, y, w = ([r[i] for r in case["rows"]] for i in range(3))
    tag = "predictions %s, truth %s, weights %s" % (p, y, w)
    means, centres, errors, counts = calc_in_sample_histograms(np.array(y), np.array(p), np.array(w), case["quantile"])
    rec.op()
    lo, hi = min(p), max(p)
    edges = np.linspace(lo, hi, 101)
    g = [100 if v >= hi else int(np.searchsorted(edges, v, side="right")) for v in p]
    want = group_stats(g, y, w)
    keys = sorted(want)
    ensure(len(means) == len(keys) == len(centres) == len(counts), lambda: "%s: %d means at %d positions with %d counts" % (tag, len(means), len(centres), len(counts)))
    close(centres, [0.5 * (edges[k - 1] + edges[k]) for k in keys], tag + ": positions", 1e-12, 1e-12)
    if case["quantile"] is None:
        close(np.asarray(means), [want[k][0] for k in keys], tag + ": mean truth", 1e-12, 1e-12)
    else:
        q = [lower_quantile([b for a, b in zip(g, y) if a == k], [b for a, b in zip(g, w) if a == k], case["quantile"]) for k in keys]
        close(np.asarray(means), q, tag + ": quantile of the truth", 1e-12, 1e-12)
    close(np.asarray(counts, dtype=float), [want[k][2] for k in keys], tag + ": counts", 1e-12, 1e-12)
    if set(y) <= {0.0, 1.0} or case["quantile"] is not None:
        ensure(errors is None, lambda: tag + ": error bands for classes or quantiles")
    else:
        ensure(errors is not None and len(errors) == 4, lambda: tag + ": no error bands")
        for i in range(4):
            close(np.asarray(errors[i]), [want[k][3][i] for k in keys], "%s: error band %d" % (tag, i), 1e-12, 1e-12)
    rec.trace()
    rec.state(p, y, w, case["quantile"])
    rec.outcome("diagonal")


# --- smeared cumulative probabilities ------------------------------------


def smear_cases(tier):
    return [{"cdf": list(c), "y": y, "u": u} for c in itertools.combinations_with_replacement((0.0, 0.2, 0.5, 0.9, 1.0), 3) for y in (0, 1, 2) for u in (0.0, 0.25, 1.0)]


class Table:
    def __init__(self, c):
        self.c = np.array(c)

    def cdf(self, y, inner=False):
        return self.c[np.clip(np.asarray(y, dtype=int), 0, 2)]


def check_smear(case, rec):
    """All outcomes of the uniform draw at its ends and inside."""
    c, y, u = case["cdf"], case["y"], case["u"]
    lo = c[y - 1] if y >= 1 else 0.0
    want = lo + u * (c[y] - lo)
    calls = []

    def uniform(a=0.0, b=1.0, size=None):
        calls.append(1)
        return a + u * (b - a) if size is None else np.full(size, a + u * (b - a))

    with mock.patch("numpy.random.uniform", uniform):
        got = utils.smear_discrete_cdftruth(lambda v: c[int(v)], y)
        first = len(calls)
        many = utils.smear_discrete_cdftruth_qpd(Table(c), np.array([y, 0, 2]))
        second = len(calls) - first
    rec.op(2)
    tag = "cdf %s at %s" % (c, y)
    if first == 1:
        close(got, want, "%s with draw %s" % (tag, u), 1e-12, 1e-12)
    ensure(lo - 1e-12 <= got <= c[y] + 1e-12, lambda: "%s: %s" % (tag, got))
    if second == 1:
        close(many, [want, u * c[0], c[1] + u * (c[2] - c[1])], "cdf %s at %s with draw %s" % (c, [y, 0, 2], u), 1e-12, 1e-12)
    for a, l, h in zip(many, (lo, 0.0, c[1]), (c[y], c[0], c[2])):
        ensure(l - 1e-12 <= a <= h + 1e-12, lambda: "cdf %s at %s: %s" % (c, [y, 0, 2], many))
    rec.trace()
    rec.state(case)
    rec.outcome("smear")


# --- regularised values --------------------------------------------------


def regular_cases(tier):
    out = []
    for n in (1, 2, 3):
        for t in itertools.product(itertools.product((0.0, 1.0, -3.0), (0.5, 1.0, 4.0)), repeat=n):
            out.append({"v": [r[0] for r in t], "u": [r[1] for r in t]})
    for t in thin(list(itertools.product(itertools.product((0.0, 1.0, -3.0), (0.5, 2.0)), repeat=5)), 13 if tier == "quick" else 2, 5):
        out.append({"v": [r[0] for r in t], "u": [r[1] for r in t]})
    return out


def to_mean(v, u, mean=None):
    w = [1 / b**2 for b in u]
    total = sum(w)
    if mean is None:
        mean = sum(a * b for a, b in zip(w, v)) / total
    spread = sum(a * (b - mean) ** 2 for a, b in zip(w, v)) / total
    return [mean if spread == 0 else (a * b + mean / spread) / (a + 1 / spread) for a, b in zip(w, v)]


def check_regular(case, rec):
    silence()
    v, u = case["v"], case["u"]
    va, ua = np.array(v), np.array(u)
    tag = "values %s with uncertainties %s" % (v, u)
    for prior in (None, 0.0, 2.5):
        got = utils.regularize_to_error_weighted_mean(va, ua, prior)
        rec.op()
        if prior is None and (len(v) == 1 or len(set(v)) == 1):
            want = v
        elif prior is not None and all(a == prior for a in v):
            want = v
        else:
            want = to_mean(v, u, prior)
        close(got, want, "%s regularised to %s" % (tag, prior), 1e-10, 1e-10)
    for prior in (0.0, 1.5):
        for threshold in (0.0, 2.5):
            got = utils.regularize_to_prior_expectation(va, ua, prior, threshold)
            rec.op()
            want = []
            for a, b in zip(v, u):
                sig = (a - prior) / b
                want.append(prior if abs(sig) <= threshold else prior + b * math.copysign(math.sqrt(sig**2 - threshold**2), sig))
            close(got, want, "%s regularised to %s with threshold %s" % (tag, prior, threshold), 1e-10, 1e-10)
    close(utils.regularize_to_prior_expectation(va, ua, va[::-1].copy()), [b if abs((a - b) / c) <= 2.5 else b + c * math.copysign(math.sqrt(((a - b) / c) ** 2 - 6.25), a - b) for a, b, c in zip(v, v[::-1], u)], tag + " regularised to one prior each", 1e-10, 1e-10)
    if len(v) >= 3:
        for size in (1, 3, 5):
            if size > len(v):
                continue
            got = utils.regularize_to_error_weighted_mean_neighbors(va, ua, size)
            rec.op()
            h = size // 2
            want = []
            for i in range(len(v)):
                lo, hi = max(0, i - h), min(len(v), i + h + 1)
                want.append(to_mean(v[lo:hi], u[lo:hi])[i - lo])
            close(got, want, "%s regularised to %d neighbours" % (tag, size), 1e-9, 1e-9)
    else:
        got = utils.regularize_to_error_weighted_mean_neighbors(va, ua)
        close(got, v if len(set(v)) == 1 else to_mean(v, u), tag + " regularised to neighbours", 1e-10, 1e-10)
    ensure(list(va) == v and list(ua) == u, lambda: tag + ": the arguments were changed")
    rec.trace()
    rec.state(v, u)
    rec.outcome("regular")


def interaction_cases(tier):
    out = [{"v": list(t), "shape": [2, 2], "u": u} for t in itertools.product((0.0, 1.0, -2.0), repeat=4) for u in (None, [1.0, 2.0, 0.5, 1.0], [3.0, 1.0, 1.0, 1.0])]
    out += [{"v": list(t), "shape": [2, 3], "u": u} for t in thin(list(itertools.product((0.0, 1.0, -2.0), repeat=6)), 3 if tier == "quick" else 1, 1) for u in (None, [1.0, 2.0, 0.5, 1.0, 4.0, 1.0])]
    return out


def check_interaction(case, rec):
    """Rows and columns lose their own shift, the interaction stays."""
    silence()
    v = np.array(case["v"]).reshape(case["shape"])
    u = np.ones(v.shape) if case["u"] is None else np.array(case["u"]).reshape(v.shape)
    tag = "table %s with weights %s" % (v.tolist(), u.tolist())
    got = utils.neutralize_one_dim_influence(v.copy(), u.copy())
    rec.op()
    for i in range(v.shape[0] - 1):
        for j in range(v.shape[1] - 1):
            close(got[i, j] - got[i + 1, j] - got[i, j + 1] + got[i + 1, j + 1], v[i, j] - v[i + 1, j] - v[i, j + 1] + v[i + 1, j + 1], tag + ": interaction", 1e-9, 1e-9)
    close((got * u).sum(axis=0), np.zeros(v.shape[1]), tag + ": column sums", 0, 1e-9)
    rows = np.abs((got * u).sum(axis=1)).sum()
    if case["u"] is None:
        close(rows, 0.0, tag + ": row sums", 0, 1e-9)
    else:
        before = np.abs((v * u).sum(axis=1)).sum() + np.abs((v * u).sum(axis=0)).sum()
        ensure(rows <= max(0.01, 0.25 * before), lambda: "%s: row sums %s" % (tag, (got * u).sum(axis=1)))
    rec.trace()
    rec.state(case)
    rec.outcome("interaction")


def unseen_cases(tier):
    nan = float("nan")
    out = []
    for wx in itertools.product((0.0, 2.0), repeat=3):
        out.append({"x": [[0.0], [1.0], [2.0], [nan], [-1.0]], "wx": list(wx), "n": [3]})
        for last in (0.0, 1.0):
            out.append({"x": [[nan], [2.0], [1.0], [0.0], [-1.0]], "wx": list(wx) + [last], "n": [3]})
    for wx in itertools.product((0.0, 2.0), repeat=5):
        out.append({"x": [[float(a), float(b)] for a in (0, 1, nan, -1) for b in (1, 0, nan)], "wx": list(wx), "n": [2, 2]})
        out.append({"x": [[float(a), float(b)] for a in (0, 1, nan, -1) for b in (1, 0, nan)], "wx": list(wx)[:4], "n": [2, 2]})
    return out


def check_unseen(case, rec):
    silence()
    x, wx, n = case["x"], case["wx"], case["n"]
    got = utils.not_seen_events(np.array(x), np.array(wx), np.array(n))
    rec.op()
    size = int(np.prod(n))
    weights = list(wx) + ([0.0] if len(wx) == size else [])
    want = []
    for r in x:
        if any(not (v >= 0) for v in r):
            k = size
        else:
            k = int(r[0]) if len(r) == 1 else int(r[0]) * n[1] + int(r[1])
        want.append(weights[k] == 0)
    ensure([bool(v) for v in got] == want, lambda: "cells %s with weights %s: unseen %s, expected %s" % (x, wx, list(got), want))
    rec.trace()
    rec.state(case)
    rec.outcome("unseen")


# --- statistics recorded by a training --------------------------------------

RECORDED = [k for k in est.ALL if k != "nbinomc"]
RECORDED_WEIGHTS = [None, [1.0, 2.0, 0.5, 3.0], [40.0, 1.0, 0.25, 1.0]]


def recorded_cases(tier):
    q = tier == "quick"
    t3, t4 = list(tables(3)), list(tables(4, ny=3))
    out = []
    i = 0
    for kind in RECORDED:
        gen = kind in est.GENERIC
        for struct in STRUCTS:
            if gen and struct not in ("2x1d", "2d", "mixed"):
                continue
            for props in ("u", "m"):
                for w in range(3):
                    per = (5 if not gen else 2) * (1 if q else 15)
                    for t in thin(t3, len(t3) // per, 3 * i) + thin(t4, len(t4) // per, 7 * i):
                        out.append({"kind": kind, "struct": struct, "props": props, "t": t, "w": w, "quantile": [0.5, 0.2, 0.9][i % 3]})
                        i += 1
    return out


class Last(object):
    """Keeps the in-sample prediction at the end of training."""

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        self.prediction = np.array(prediction, dtype=float)

    def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
        pass


def check_recorded(case, rec):
    logging.disable(logging.CRITICAL)
    kind = case["kind"]
    X, y = build(kind, case["t"])
    n = len(X)
    w = [1.0] * n
    kw = {}
    if RECORDED_WEIGHTS[case["w"]] is not None:
        w = RECORDED_WEIGHTS[case["w"]][:n]
        X["w"] = w
        kw["weight_column"] = "w"
    quant = kind in ("mquant", "aquant")
    if quant:
        kw["quantile"] = case["quantile"]
    groups = [g if isinstance(g, list) else [g] for g in STRUCTS[case["struct"]]]
    m = est.make(kind, STRUCTS[case["struct"]], PROPS[case["props"]], maximal_iterations=2, observers=[observers.PlottingObserver(), Last()], **kw)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            m.fit(X, y)
        except ConvergenceError:
            rec.outcome("diverging")
            return
    rec.op()
    rec.trace()
    pred = m.observers[1].prediction
    tag = "%s %s %s weights %s table %s" % (kind, groups, case["props"], w, case["t"])
    found = {tuple(f.feature_group): f for f in m.observers[0].features if f.feature_type is None}
    ensure(set(found) == {tuple(g) for g in groups}, lambda: "%s: statistics of %s" % (tag, sorted(found)))
    for g in groups:
        f = found[tuple(g)]
        pos = [tuple(int(v) for v in r) if (r >= 0).all() else None for r in X[g].values]
        seen = [p for p in pos if p is not None]
        if not seen:
            rec.outcome("all missing")
            continue
        grid = [max(p[k] for p in seen) + 1 for k in range(len(g))]
        allc = list(itertools.product(*[range(v) for v in grid])) + [None]
        rows = {c: [i for i in range(n) if pos[i] == c] for c in allc}
        inside = [i for i in range(n) if pos[i] is not None]

        def wmean(idx, v):
            return math.fsum(w[i] * v[i] for i in idx) / math.fsum(w[i] for i in idx)

        if quant:
            # the quantile of a sample is subject of another space
            ty = [utils.continuous_quantile_from_discrete_pdf(y[rows[c]], case["quantile"], np.array(w)[rows[c]]) if rows[c] else 1.0 for c in allc]
            tp = [wmean(rows[c], pred) if rows[c] else 1.0 for c in allc]
            my, mp = utils.continuous_quantile_from_discrete_pdf(y, case["quantile"], np.array(w)), wmean(range(n), pred)
        else:
            # one pseudo row of value one keeps small bins tame
            ty = [(math.fsum(w[i] * y[i] for i in rows[c]) + 1) / (math.fsum(w[i] for i in rows[c]) + 1) for c in allc]
            tp = [(math.fsum(w[i] * pred[i] for i in rows[c]) + 1) / (math.fsum(w[i] for i in rows[c]) + 1) for c in allc]
            my, mp = wmean(inside, y), wmean(inside, pred)
        ty, tp = np.array(ty, dtype=float), np.array(tp, dtype=float)
        with np.errstate(all="ignore"):
            if kind in est.ADD:
                want = tp - ty, ty - my, tp - mp
            else:
                want = np.log(tp + 1e-12) - np.log(ty + 1e-12), np.log(ty / my + 1e-12), np.log(tp / mp + 1e-12)
        if not (quant and my == 0):
            for what, got, v in zip(("deviation", "target", "prediction"), (f.mean_dev, f.y, f.prediction), want):
                close(np.asarray(got, dtype=float), v, "%s: %s of the bins of %s" % (tag, what, g), 1e-8, 1e-9)
        close([f.y_finite, f.prediction_finite], [my, mp], "%s: means of %s" % (tag, g), 1e-9, 1e-9)
        rec.state("recorded", kind, g, w, np.round(pred, 6))
    rec.outcome("recorded " + kind)


def spaces(tier):
    return [
        Space("groups", lambda: group_cases(tier), check_group, "all tables of up to 3 rows (share of 4 rows) over 3 values x 2 groups x 3 weights, none, equal and zero weights; lists, arrays, series"),
        Space("samples", lambda: sample_cases(tier), check_sample, "all samples of up to 4 rows over 4 values x 3 weights, 3 rows with zero weights; 5 quantiles"),
        Space("histograms", lambda: histogram_cases(tier), check_histogram, "all samples of up to 4 of 5 values x up to 100 bins; every boundary and centre probed"),
        Space("diagonal", lambda: diagonal_cases(tier), check_diagonal, "all tables of up to 3 rows over predictions x truths x weights incl. zero"),
        Space("regularised", lambda: regular_cases(tier), check_regular, "all vectors of up to 3 (share of 5) values x uncertainties; priors, thresholds, windows 1/3/5"),
        Space("interaction", lambda: interaction_cases(tier), check_interaction, "all 2x2 and 2x3 tables over 3 values; equal and uneven weights"),
        Space("unseen", lambda: unseen_cases(tier), check_unseen, "all weight patterns of 3 bins and 2x2 cells x all cells incl. missing"),
        Space("smearing", lambda: smear_cases(tier), check_smear, "all monotone distribution functions on 3 points x values x draws"),
        Space("recorded", lambda: recorded_cases(tier), check_recorded, "12 estimators x 6 structures x 2 property sets x 3 weightings x interleaved subsets of all 3- and 4-row tables: bin means, quantiles and deviations an observer receives", warm=est.warm_basic, warm_in_child=True),
    ]
