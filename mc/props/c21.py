"""C21: the dispersion model takes the most likely candidate in every bin."""
import itertools
import math
import warnings

import numpy as np
import pandas as pd

from cyclic_boosting.common_smoothers import NoSmootherChoice
from mc.core import close, ensure, fail
from mc.est import MNL, U, link_of, make
from mc.run import Space
from mc.tables import thin

ASSUMPTIONS = [
    "Smoothing is off and the learning rate is one.",
    "A row with mean zero has no likelihood to compare: it only counts with the penalty of its candidate.",
]
GROUPS = {"1d": [["a"]], "2d": [["a", "b"]], "2x1d": [["a"], ["b"]], "seq": [["b"], ["a", "b"]]}
YS = [0.0, 1.0, 3.0, 12.0]
MUS = [[1.0, 2.5, 0.4, 4.0, 1.5], [2.0] * 5, [0.01, 8.0, 30.0, 1.0, 5.0]]
GAMMAS = [0.0, 0.7]
EXTREME_YS = [0.0, 2.0, 400.0]
EXTREME_MUS = [[0.0, 1.0, 3.0], [1.0, 0.0, 3.0], [2.0, 0.5, 0.0], [0.0] * 3, [0.05, 200.0, 1.0]]


def nll(y, mu, c):
    if mu == 0.0:
        return 0.0
    p = min(1.0 / (1.0 + c * mu), 1.0 - 1e-8)
    n = mu * p / (1.0 - p)
    return -(math.lgamma(n + y) - math.lgamma(y + 1) - math.lgamma(n) + n * math.log(p) + y * math.log(1.0 - p))


def sigmoid(v):
    return 1.0 / (1.0 + math.exp(-v))


def candidates(cycle, steps):
    k = steps // cycle
    up = np.logspace(-3, 1.0 / cycle, k)
    return np.concatenate([-up[::-1], [0.0], up])


def tables(n, ny):
    rows = list(itertools.product((-1, 0, 1), (0, 1)))
    uni = [(r, k) for r in rows for k in range(ny)]
    for t in itertools.combinations_with_replacement(range(len(uni)), n):
        yield {"rows": [list(uni[i][0]) for i in t], "y": [uni[i][1] for i in t]}


def cases(tier):
    q = tier == "quick"
    t2, t3, t4 = list(tables(2, 4)), list(tables(3, 4)), list(tables(4, 3))
    t5 = [dict(rows=a["rows"] + b["rows"], y=a["y"] + b["y"]) for a, b in zip(t2 * 9, t3[::7])]
    out = []
    i = 0
    for g, mnl, bayes, gamma, mu, steps, prior in itertools.product(GROUPS, (False, True), (False, True), range(2), range(3), (15, 4), (False, True)):
        for ts in (t2, t3, t4, t5):
            for t in thin(ts, max(len(ts) // (2 if q else 16), 1), 11 * i):
                out.append({"groups": g, "mnl": mnl, "bayes": bayes, "gamma": gamma, "mu": mu, "steps": steps, "prior": prior, "t": t})
            i += 1
    return out


def train(X, y, gs, props, limit, **kw):
    m = make("nbinomc", gs, props, maximal_iterations=limit, smoother_choice=NoSmootherChoice(), minimal_factor_change=-1.0, minimal_loss_change=-1e30, **kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.fit(X, y)
    return m


def effects(m, gs, X):
    """Effects per group and cell (None: missing) on the link scale."""
    lk = link_of("nbinomc")
    out = []
    for g in gs:
        cell = [tuple(int(v) for v in r) if (r >= 0).all() else None for r in X[g].values]
        present = [c for c in cell if c is not None]
        size = [max(c[j] for c in present) + 1 for j in range(len(g))] if present else []
        allc = (list(itertools.product(*[range(s) for s in size])) if present else []) + [None]
        Q = pd.DataFrame({"a": np.zeros(len(allc)), "b": 0.0, "mu": 1.0, "prior": 0.5})
        for j, c in enumerate(g):
            Q[c] = [float(k[j]) if k is not None else -1.0 for k in allc]
        con = np.asarray(m.get_feature_contributions(Q)[" ".join(g)], dtype=float)
        out.append((cell, dict(zip(allc, lk(con)))))
    return out


def check(case, rec):
    reps = case.get("reps", 1)
    rows = np.array(case["t"]["rows"] * reps, dtype=float)
    n = len(rows)
    k = n // reps
    ys, mus = (EXTREME_YS, EXTREME_MUS) if "reps" in case else (YS, MUS)
    y = np.array([ys[j] for j in case["t"]["y"]] * reps)
    mu = np.array(mus[case["mu"]][:k] * reps)
    gamma, bayes, steps = GAMMAS[case["gamma"]], case["bayes"], case["steps"]
    X = pd.DataFrame({"a": rows[:, 0], "b": rows[:, 1], "mu": mu, "prior": [0.2, 0.9, 0.5, 0.0, 0.4][:k] * reps})
    gs = GROUPS[case["groups"]]
    props = {"a": U | MNL if case["mnl"] else U, "b": U}
    kw = {"prior_prediction_column": "prior"} if case["prior"] else {}
    if gamma:
        kw["gamma"] = gamma
    if steps != 15:
        kw["n_steps"] = steps
    tag = "groups %s bayes %s gamma %s means %s steps %s prior %s" % (gs, bayes, gamma, mu, steps, case["prior"])
    base = np.zeros(n)
    if case["prior"]:
        base = np.array([math.log(p / (1 - p)) if 0 < p < 1 else 0.0 for p in X["prior"]])
    prev = [(None, None)] * len(gs)
    for limit in (1, 2, 3):
        m = train(X, y, gs, props, limit, bayes=bayes, **kw)
        if m.iteration_ != limit:
            rec.outcome("diverged")
            return
        rec.op()
        rec.trace()
        now = effects(m, gs, X)
        p = np.asarray(m.predict(X), dtype=float)
        ensure(((p > 0) & (p < 1)).all(), lambda: "%s: predictions %s" % (tag, p))
        # in-sample links when the first group of this cycle is estimated
        lin = base.copy()
        if limit > 1:
            for cell, eff in prev:
                lin = lin + np.array([eff[c] for c in cell])
        cand = candidates(limit, steps)
        for (cell, eff), (_, before) in zip(now, prev):
            for c in eff:
                step = eff[c] - (before[c] if before else 0.0)
                idx = [i for i in range(n) if cell[i] == c]
                if not idx or (c is None and case["mnl"] and "a" in gs[now.index((cell, eff))]):
                    close(step, 0.0, "%s: effect of cell %s without learned rows in cycle %d" % (tag, c, limit), 0, 1e-6)
                    continue

                def loss(v):
                    s = 0.0
                    for i in idx:
                        cc = sigmoid(lin[i] + v)
                        s += nll(y[i], mu[i], cc) + gamma * cc
                    return s

                ls = np.array([loss(v) for v in cand])
                rec.state(case["groups"], limit, c, y[idx], mu[idx], np.round(lin[idx], 6), step)
                if bayes:
                    w = np.exp(-(ls - ls.min()))
                    want = float(np.sum(w * cand) / np.sum(w))
                    close(step, want, "%s: posterior mean in cell %s with targets %s, cycle %d" % (tag, c, y[idx], limit), 1e-5, 1e-5)
                else:
                    got = loss(step)
                    if got > ls.min() + 1e-6 * (1 + abs(ls.min())):
                        fail("%s: cell %s with targets %s, cycle %d: step %r has loss %r, candidate %r has %r" % (tag, c, y[idx], limit, step, got, cand[ls.argmin()], ls.min()))
            # the next group sees the new effects of this one
            lin = lin + np.array([eff[c] - (before[c] if before else 0.0) for c in cell])
        close(p, [sigmoid(v) for v in lin], "%s: prediction after %d cycles" % (tag, limit), 1e-7, 1e-12)
        prev = now
    rec.outcome("bayes" if bayes else "maximum likelihood")


def extreme_cases(tier):
    q = tier == "quick"
    t2, t3 = list(tables(2, 3)), list(tables(3, 3))
    out = []
    i = 0
    for g, bayes, gamma, mu, reps in itertools.product(GROUPS, (False, True), range(2), range(5), (1, 50)):
        for ts in (t2, t3):
            for t in thin(ts, max(len(ts) // ((6 if reps == 1 else 2) if q else 40), 1), 7 * i):
                out.append({"groups": g, "mnl": False, "bayes": bayes, "gamma": gamma, "mu": mu, "steps": 15, "prior": False, "t": t, "reps": reps})
            i += 1
    return out


def spread_cases(tier):
    return [{"mean": mu, "bayes": b, "reps": r} for mu in range(1, 9 if tier == "quick" else 21) for b in (False, True) for r in (1, 3)]


def check_spread(case, rec):
    """The farther the targets of a bin are from their mean, the larger the dispersion."""
    mu = float(case["mean"])
    got = []
    for d in range(int(mu) + 1):
        ys = np.array([mu - d, mu + d] * case["reps"])
        X = pd.DataFrame({"a": np.zeros(len(ys)), "mu": mu})
        m = train(X, ys, [["a"]], {"a": U}, 2, bayes=case["bayes"])
        rec.op()
        got.append(float(m.predict(X)[0]))
        rec.state("spread", mu, d, got[-1])
    rec.trace()
    ensure(all(b >= a - 1e-12 for a, b in zip(got, got[1:])), lambda: "dispersion for targets %g-d, %g+d: %s" % (mu, mu, got))
    if mu >= 4:
        ensure(got[-1] > got[0], lambda: "dispersion does not react to the spread: %s" % got)
    rec.outcome("spread")


def warm():
    X = pd.DataFrame({"a": [0.0, 1, 0, 1], "b": [0.0, 0, 1, 1], "mu": 1.0})
    y = np.array([1.0, 2, 3, 4])
    for b in (False, True):
        train(X, y, [["a"], ["a", "b"]], {"a": U, "b": U}, 1, bayes=b).predict(X)


def spaces(tier):
    return [
        Space("bins", lambda: cases(tier), check,
              "4 group structures x learned or not learned missing values x maximum likelihood or posterior mean x 2 penalties x 3 mean columns x 2 grid sizes x with or without prior x interleaved subsets of all 2- to 5-row tables over 4 counts; every cycle of 3",
              warm=warm, warm_in_child=True),
        Space("extremes", lambda: extreme_cases(tier), check,
              "4 group structures x both modes x 2 penalties x 5 mean columns with zero, small and large means x 1 or 50 copies of every row x interleaved subsets of all 2- and 3-row tables over the counts 0, 2 and 400; every cycle of 3",
              warm=warm, warm_in_child=True),
        Space("spread", lambda: spread_cases(tier), check_spread, "targets at every distance from means up to 8 (thorough: 20), both modes, 2 or 6 rows", warm=warm, warm_in_child=True),
    ]
