"""Training tables and model configurations shared by the estimator checks."""
import itertools

import numpy as np

from mc.est import C, HM, MNL, O, U, frame, make, targets

NAN, INF = float("nan"), float("inf")

STRUCTS = {
    "1d": ["a"],
    "2x1d": ["a", "b"],
    "2d": [["a", "b"]],
    "mixed": ["a", ["a", "b"]],
    "3d": ["b", ["a", "b", "c"]],
    "rev": [["b", "a"], "c", "a"],
}


def rows_universe(a=(-1, 0, 1), b=(0, 1)):
    return [(float(x), float(y)) for x in a for y in b]


def tables(n, universe=None, ny=2):
    """All multisets of n (row, target index) pairs; the target varies."""
    uni = [(r, k) for r in (universe or rows_universe()) for k in range(ny)]
    for t in itertools.combinations_with_replacement(range(len(uni)), n):
        ks = [uni[i][1] for i in t]
        if len(set(ks)) < 2:
            continue
        yield {"rows": [list(uni[i][0]) for i in t], "y": ks}


def thin(cases, k, r=0):
    """Every k-th case, for configurations that are only spot-covered."""
    return [c for i, c in enumerate(cases) if i % k == r % k]


def build(kind, t, c_col=True):
    """X, y of a table; column c is derived from the row position (mod 2)."""
    rows = t["rows"]
    cols = {"a": [r[0] for r in rows], "b": [r[1] for r in rows]}
    if c_col:
        cols["c"] = [float(i % 2) for i in range(len(rows))]
    ys = targets(kind)
    y = np.array([ys[k % len(ys)] for k in t["y"]])
    return frame(cols, kind), y


def query(kind=None, a=(-1, 0, 1, 2, 7, NAN, INF), b=(-1, 0, 1, 4), c=(0, 1, -1)):
    q = list(itertools.product(a, b, c))
    return frame({"a": [r[0] for r in q], "b": [r[1] for r in q], "c": [r[2] for r in q]}, kind)


PROPS = {
    "u": {"a": U, "b": U, "c": U},
    "c": {"a": C, "b": C, "c": C},
    "o": {"a": O | HM, "b": O, "c": O},
    "m": {"a": U | MNL, "b": U, "c": C | MNL},
}
