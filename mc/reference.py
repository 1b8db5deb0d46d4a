"""Textbook implementation of the coordinate-wise training (plain Python loops)."""
import math

import numpy as np
import scipy.special
import scipy.stats

from mc.est import ADD, LOGIT, MULT


def link(kind, v):
    if kind in MULT:
        return math.log(v)
    if kind in ADD:
        return v
    return math.log(v / (1 - v))


def unlink(kind, v):
    if kind in MULT:
        return math.exp(v)
    if kind in ADD:
        return v
    return 1.0 / (1.0 + math.exp(-v))


def base_value(kind, y, w):
    mean = sum(a * b for a, b in zip(y, w)) / sum(w)
    if kind == "gbs":
        return mean
    v = mean + 0.001
    if kind in LOGIT:
        v = min(v, 0.999)
    return link(kind, v)


def loss(kind, p, y, w):
    num = sum(wi * (pi - yi) ** 2 for pi, yi, wi in zip(p, y, w))
    den = sum(wi for yi, wi in zip(y, w) if yi != 0) if kind == "gbs" else sum(w)
    return num / den if den != 0 else float("nan")


class Cells:
    """Grid of a feature group; the missing cell is None."""

    def __init__(self, rows, w):
        self.of_row = [tuple(int(v) for v in r) if all(v == v and v >= 0 for v in r) else None for r in rows]
        present = [c for c in self.of_row if c is not None]
        self.cells = []
        if present:
            size = [max(c[j] for c in present) + 1 for j in range(len(present[0]))]
            self.cells = [()]
            for s in size:
                self.cells = [c + (v,) for c in self.cells for v in range(s)]
        self.all = self.cells + [None]
        self.rows = {c: [i for i, r in enumerate(self.of_row) if r == c] for c in self.all}
        self.weight = {c: sum(w[i] for i in self.rows[c]) for c in self.all}


def estimate(kind, grid, y, w, plink, par):
    """Per-cell estimate and uncertainty on the link scale."""
    est, unc = {}, {}
    p = [unlink(kind, v) for v in plink]
    wsum = sum(w)
    ybar = sum(a * b for a, b in zip(y, w)) / wsum
    yvar = sum(b * (a - ybar) ** 2 for a, b in zip(y, w)) / wsum
    for c in grid.all:
        r = grid.rows[c]
        if kind in ("poisson", "nbinom"):
            a, cc = (1.0, 0.0) if kind == "poisson" else (par["a"], par["c"])
            al = 2.0 + sum(w[i] * y[i] / (a + cc * p[i]) for i in r)
            be = 1.67834 + sum(w[i] * p[i] / (a + cc * p[i]) for i in r)
            med = scipy.special.gammaincinv(al, 0.5) / be
            est[c] = math.log(med)
            unc[c] = math.sqrt(math.log(1 + al) - math.log(al))
        elif kind == "location":
            prior_var = yvar if yvar > 1e-9 else 1.0
            sw = sum(w[i] for i in r)
            ss = 0.0
            if sw > 0:
                m = sum(w[i] * y[i] for i in r) / sw
                ss = sum(w[i] * (y[i] - m) ** 2 for i in r)
            var = (0.5 * prior_var + 0.5 * ss) / (0.5 + 0.5 * sw)
            den = 1e-2 + sum(w[i] / var for i in r)
            est[c] = sum(w[i] / var * (y[i] - plink[i]) for i in r) / den
            unc[c] = math.sqrt((1e-2 + sum(w[i] * w[i] / var for i in r))) / den
        elif kind == "locpoisson":
            gstd = math.sqrt(yvar)
            pp = [max(v, 0.0) for v in plink]
            var = [v if v > 0 else 1.0 for v in pp]
            den = sum(w[i] / var[i] for i in r) or 1.0
            s = sum(w[i] * (y[i] - pp[i]) / var[i] for i in r) / den
            u = sum(w[i] ** 2 / var[i] for i in r) / den
            u = u if u > 0 else gstd
            n = sum(w[i] for i in r)
            est[c] = (n * s / u**2) / (n / u**2 + 1.0 / gstd**2)
            unc[c] = u
        elif kind == "gbs":
            al = par["regalpha"]
            d = 1.0 + sum(w[i] * (1 + al) for i in r)
            nn = sum(w[i] * (y[i] - plink[i]) for i in r)
            est[c] = nn / d
            n2 = sum((w[i] * (y[i] - plink[i])) ** 2 for i in r)
            nd = sum(w[i] * (y[i] - plink[i]) * w[i] * (1 + al) for i in r)
            d2 = 1.0 + sum((w[i] * (1 + al)) ** 2 for i in r)
            v = (d**2 * n2 - 2 * nn * d * nd + nn**2 * d2) / d**4
            unc[c] = math.sqrt(max(v, 0.0))
        elif kind == "classifier":
            al, be = 1.001, 1.001
            for i in r:
                b = 1 - p[i] if y[i] else p[i]
                if y[i]:
                    al += w[i] * b
                else:
                    be += w[i] * b
            shift = 0.4 * (al / (al + be) - 0.5)
            q1, q2 = 0.75 - shift, 0.25 - shift
            l1 = link(kind, scipy.special.betaincinv(al, be, q1))
            l2 = link(kind, scipy.special.betaincinv(al, be, q2))
            z1, z2 = scipy.special.ndtri(q1), scipy.special.ndtri(q2)
            unc[c] = (l1 - l2) / (z1 - z2)
            est[c] = l1 - unc[c] * z1
        else:
            raise KeyError(kind)
    return est, unc


def smooth(mode, grid, est, unc):
    """Smoothed value of every present cell; cells never seen are neutral."""
    out = {}
    cells = grid.cells
    if mode == "none":
        for c in cells:
            out[c] = est[c]
    else:
        wt = sum(grid.weight[c] for c in cells)
        norm = sum(grid.weight[c] * est[c] for c in cells) / wt if wt > 0 else 0.0
        x = {c: est[c] - norm for c in cells}
        if all(abs(v) <= 1e-8 for v in x.values()):
            for c in cells:
                out[c] = x[c] + norm
        else:
            prec = {c: 1.0 / unc[c] ** 2 for c in cells}
            spread = sum(prec[c] * x[c] ** 2 for c in cells) / sum(prec.values())
            for c in cells:
                out[c] = prec[c] * x[c] / (prec[c] + 1.0 / spread) + norm
    for c in cells:
        if not grid.weight[c] > 0:
            out[c] = 0.0
    return out


LIMITS = {False: (0.01, 1000.0), True: (0.1, 100.0)}


def start(kind, base, prior, w):
    """The priors on the link scale, shifted to the base value; invalid ones are replaced by it."""

    def on_link(v):
        if not math.isfinite(v) or (kind in MULT and v <= 0) or (kind in LOGIT and not 0 < v < 1):
            return None
        return link(kind, v)

    finite = [i for i, v in enumerate(prior) if math.isfinite(v)]
    total = sum(w[i] for i in finite)
    mean = on_link(sum(w[i] * prior[i] for i in finite) / total) if total > 0 else None
    shift = base - mean if mean is not None else base
    links = [on_link(v) for v in prior]
    return [v + shift if v is not None else base for v in links]


class Training:
    """The state after every cycle: effects, in-sample predictions, losses."""

    def __init__(self, kind, X, y, w, groups, cycles, rate, mode, learned, par, accumulate=True, prior=None, late=(), alone=0):
        """`learned[g]` tells whether the missing cell of group g is learned.

        The groups of numbers `late` are not trained in the first `alone` cycles.
        """
        self.kind = kind
        n = len(y)
        groups = [g if isinstance(g, list) else [g] for g in groups]
        self.grids = [Cells([[X[c][i] for c in g] for i in range(n)], w) for g in groups]
        self.base = base_value(kind, y, w)
        plink = [self.base] * n if prior is None else start(kind, self.base, prior, w)
        self.eff = [{c: 0.0 for c in g.all} for g in self.grids]
        self.preds = [[unlink(kind, v) for v in plink]]
        self.losses = [loss(kind, self.preds[0], y, w)]
        self.degenerate = False
        self.diverged = None
        for k in range(1, cycles + 1):
            for gi, grid in enumerate(self.grids):
                if k <= alone and gi in late:
                    continue
                lr = rate(k, cycles)
                if not accumulate:
                    # the effect is estimated anew, given those of the other groups
                    for i in range(n):
                        plink[i] -= self.eff[gi][grid.of_row[i]]
                    self.eff[gi] = {c: 0.0 for c in grid.all}
                est, unc = estimate(kind, grid, y, w, plink, par)
                if mode != "none" and any(not u > 1e-9 for u in unc.values()):
                    self.degenerate = True
                sm = smooth(mode, grid, est, unc) if not self.degenerate else {c: est[c] for c in grid.cells}
                upd = {c: lr * sm[c] for c in grid.cells}
                upd[None] = lr * est[None] if learned[gi] else 0.0
                if kind == "location":
                    ok = [c for c in grid.all if learned[gi] or c is not None]
                    wt = sum(grid.weight[c] for c in ok)
                    if wt > 0:
                        m = sum(grid.weight[c] * upd[c] for c in ok) / wt
                        for c in ok:
                            upd[c] -= m
                if kind in MULT and accumulate:
                    lo, hi = LIMITS[len(groups[gi]) > 1]
                    for c in upd:
                        upd[c] = min(max(upd[c], math.log(0.5)), math.log(2))
                        if k > 1:
                            upd[c] = min(max(upd[c], math.log(lo) - self.eff[gi][c]), math.log(hi) - self.eff[gi][c])
                for c in upd:
                    self.eff[gi][c] += upd[c]
                for i in range(n):
                    plink[i] += upd[grid.of_row[i]]
            self.preds.append([unlink(kind, v) for v in plink])
            self.losses.append(loss(kind, self.preds[-1], y, w))
            if self.losses[-1] > 2 * self.losses[0]:
                self.diverged = k
                return
