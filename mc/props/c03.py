"""C03: interaction cells: one cell per combination, missing stays missing."""
import itertools

import numpy as np
import pandas as pd

from cyclic_boosting.utils import arange_multi, bin_steps, multidim_binnos_to_lexicographic_binnos
from cyclic_boosting.common_smoothers import NoSmootherChoice
from mc.core import close, ensure, show
from mc.est import HM, U, make, raw_predict, targets, warm_basic
from mc.run import Space

NAN, INF = float("nan"), float("inf")
ASSUMPTIONS = ["targets in the estimator space are moderate, so the documented 1D/2D effect limits are not reached"]
lex = multidim_binnos_to_lexicographic_binnos


def shape_cases(tier):
    mx = {1: 6, 2: 4, 3: 4, 4: 3} if tier == "quick" else {1: 9, 2: 6, 3: 5, 4: 4, 5: 3}
    return [{"shape": list(s)} for d, m in mx.items() for s in itertools.product(range(1, m + 1), repeat=d)]


def cell(row, shape):
    """Lexicographic number by counting, or the missing cell."""
    if any((not np.isfinite(v)) or v < 0 or v >= n for v, n in zip(row, shape)):
        return int(np.prod(shape))
    k = 0
    for v, n in zip(row, shape):
        k = k * n + int(v)
    return k


def check_shape(case, rec):
    shape = case["shape"]
    nb = np.array(shape)
    rows = list(itertools.product(*[range(n) for n in shape]))
    total = len(rows)
    centres = arange_multi(nb)
    rec.op()
    close(centres, rows, "cell centres of %s" % shape, 0, 0)
    got, n_out = lex(np.array(rows, dtype=float), nb)
    rec.op()
    close(got, range(total), "cell numbers of the cell centres", 0, 0)
    close(n_out, shape, "bin counts", 0, 0)
    st = bin_steps(nb)
    close(st, [int(np.prod(shape[i:])) for i in range(len(shape) + 1)], "bin steps", 0, 0)
    rec.op()
    # bin counts derived from the data
    got, n_out = lex(np.array(rows, dtype=float))
    rec.op()
    close(n_out, shape, "derived bin counts", 0, 0)
    close(got, range(total), "cell numbers, derived counts", 0, 0)
    # every row over the extended alphabet, alone and in batches
    alph = [list(range(n)) + [-1, NAN, INF, -INF, n, n + 3] for n in shape]
    ext = list(itertools.islice(itertools.product(*alph), 0, 1500))
    want = [cell(r, shape) for r in ext]
    A = np.array(ext, dtype=float)
    close(lex(A, nb)[0], want, "cells of extended rows for shape %s" % shape, 0, 0)
    close(lex(pd.DataFrame(A), nb, bin_steps(nb))[0], want, "cells (data frame, given steps)", 0, 0)
    rec.op(2)
    step = max(1, len(ext) // 150)
    for i in range(0, len(ext), step):
        g = lex(A[i : i + 1], nb)[0]
        rec.op()
        ensure(int(g[0]) == want[i], "row %s alone (shape %s): cell %d instead of %d" % (ext[i], shape, g[0], want[i]))
    miss = [r for r, w in zip(ext, want) if w == total]
    for i in range(0, len(miss) - 1, max(1, len(miss) // 40)):
        B = np.array([miss[i], miss[-1 - i]], dtype=float)
        g = lex(B, nb)[0]
        rec.op()
        ensure(list(map(int, g)) == [total, total], "batch of missing rows %s (shape %s): cells %s" % (B.tolist(), shape, g))
    rec.trace()
    rec.state(shape, want)


def batch_cases(tier):
    """All batches of rows over a small alphabet: counts derived from the batch."""
    alpha = [-1.0, 0.0, 1.0, 2.0, NAN]
    rows = list(itertools.product(alpha, repeat=2))
    n = 2 if tier == "quick" else 3
    out = [{"rows": [list(r) for r in b]} for k in range(1, n + 1) for b in itertools.product(rows, repeat=k)]
    rows3 = list(itertools.product([-1.0, 0.0, 1.0], repeat=3))
    out += [{"rows": [list(r) for r in b]} for b in itertools.product(rows3, repeat=2)]
    return out


def check_batch(case, rec):
    rows = case["rows"]
    A = np.array(rows, dtype=float)
    got, n = lex(A)
    rec.op()
    ok = [all(np.isfinite(v) and v >= 0 for v in r) for r in rows]
    fin = [r for r, o in zip(rows, ok) if o]
    want_n = [int(max(r[j] for r in fin)) + 1 if fin else 0 for j in range(A.shape[1])]
    close(n, want_n, "derived bin counts of %s" % rows, 0, 0)
    close(got, [cell(r, want_n) for r in rows], "cells of %s" % rows, 0, 0)
    rec.trace()
    rec.state(got, n)


def est_cases(tier):
    """Training tables over 2 (3) columns, all occupancy patterns."""
    out = []
    cells2 = list(itertools.product([-1.0, 0.0, 1.0], [0.0, 1.0, NAN]))
    kinds = ["poisson", "location", "classifier", "gbs", "nbinom", "locpoisson"]
    n = 4 if tier == "quick" else 5
    for kind in kinds:
        for occ in itertools.combinations(range(len(cells2)), n):
            if tier == "quick" and kind not in ("poisson", "location") and occ[0] % 2:
                continue
            out.append({"kind": kind, "rows": [list(cells2[i]) for i in occ], "yk": sum(occ) % 3})
    cells3 = list(itertools.product([0.0, 1.0], [0.0, -1.0, 1.0], [0.0, 1.0]))
    for kind in ("poisson", "location"):
        for occ in itertools.combinations(range(len(cells3)), 4 if tier == "quick" else 5):
            if tier == "quick" and (occ[0] + occ[1]) % 2:
                continue
            out.append({"kind": kind, "rows": [list(cells3[i]) for i in occ], "yk": sum(occ) % 3})
    return out


def check_est(case, rec):
    kind, rows = case["kind"], case["rows"]
    d = len(rows[0])
    names = ["a", "b", "c"][:d]
    tr = rows + rows[:2] + rows[-1:]
    ys = targets(kind)
    pat = [[0, 1, 2, 1, 0, 2, 1, 0], [2, 0, 1, 2, 1, 0, 0, 1], [1, 1, 0, 2, 2, 0, 1, 0]][case["yk"]]
    y = np.array([ys[p % len(ys)] for p in pat[: len(tr)]])
    X = pd.DataFrame(np.array(tr, dtype=float), columns=names)
    ok = [all(np.isfinite(v) and v >= 0 for v in r) for r in tr]
    combos = sorted({tuple(r) for r, o in zip(tr, ok) if o})
    X["ab"] = [float(combos.index(tuple(r))) if o else -1.0 for r, o in zip(tr, ok)]
    props = {n: U | HM for n in names + ["ab"]}
    m = make(kind, [names], props, maximal_iterations=3, smoother_choice=NoSmootherChoice()).fit(X, y)
    s = make(kind, ["ab"], props, maximal_iterations=3, smoother_choice=NoSmootherChoice()).fit(X, y)
    rec.op(2)
    pm, ps = raw_predict(kind, m, X), raw_predict(kind, s, X)
    rec.op(2)
    close(pm, ps, "interaction model against combined column, rows %s y %s" % (tr, y.tolist()), 1e-6, 1e-8)
    # every possible cell: missing members all behave alike, unseen cells are neutral
    q = list(itertools.product([-1.0, 0.0, 1.0, NAN, INF], repeat=d))
    Q = pd.DataFrame(np.array(q), columns=names)
    okq = [all(np.isfinite(v) and v >= 0 for v in r) for r in q]
    Q["ab"] = [(float(combos.index(r)) if r in combos else 77.0) if o else -1.0 for r, o in zip(q, okq)]
    if kind == "location":  # cells without training rows carry the calibration constant of their own grid
        Q = Q[Q["ab"] != 77.0]
    close(raw_predict(kind, m, Q), raw_predict(kind, s, Q), "all query cells, rows %s" % tr, 1e-6, 1e-8)
    rec.op(2)
    rec.trace(2)
    rec.state(pm)


def spaces(tier):
    return [
        Space("shapes", lambda: shape_cases(tier), check_shape, "all shapes up to 4 (5) dimensions; all rows over in-range, missing and out-of-range members", warm=warm_basic),
        Space("batches", lambda: batch_cases(tier), check_batch, "all batches of <= %d rows over {-1,0,1,2,nan}^2 and pairs over {-1,0,1}^3" % (2 if tier == "quick" else 3)),
        Space("estimator", lambda: est_cases(tier), check_est, "all occupancy patterns of 2D/3D cells (subset for the quick tier), model on the group against model on a combined column"),
    ]
