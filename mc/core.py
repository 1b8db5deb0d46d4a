"""Recorder, comparison helpers and violation type shared by all checks."""
import hashlib

import numpy as np
import pandas as pd


class Violation(Exception):
    """The property does not hold on the current case.

    `key` identifies the failing input class for the known-findings file."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


def _canon(o, out):
    if isinstance(o, pd.DataFrame):
        out.append("df:" + ",".join(map(str, o.columns)))
        _canon(o.values, out)
    elif isinstance(o, pd.Series):
        _canon(o.values, out)
    elif isinstance(o, np.ndarray):
        if o.dtype.kind in "fiub":
            with np.errstate(all="ignore"):
                a = np.round(o.astype(float), 7) + 0.0
            out.append("%s:" % (a.shape,) + a.tobytes().hex())
        else:
            out.append(repr(o.tolist()))
    elif isinstance(o, (float, np.floating)):
        out.append(repr(round(float(o), 7) + 0.0))
    elif isinstance(o, dict):
        for k in sorted(o, key=str):
            out.append(str(k) + "=")
            _canon(o[k], out)
    elif isinstance(o, (list, tuple)):
        out.append("[")
        for x in o:
            _canon(x, out)
        out.append("]")
    else:
        out.append(repr(o))


def digest(*objs):
    out = []
    _canon(objs, out)
    return hashlib.blake2b("|".join(out).encode(), digest_size=8).digest()


class Rec:
    """Counts what a case covered."""

    def __init__(self):
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.outcomes = {}
        self.known = {}

    def op(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def state(self, *objs):
        self.states.add(digest(*objs))

    def outcome(self, label):
        self.outcomes[label] = self.outcomes.get(label, 0) + 1


def fail(msg, key=None):
    raise Violation(msg, key)


def ensure(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def show(a, n=400):
    with np.printoptions(precision=10, threshold=60, linewidth=200):
        s = str(a)
    return s if len(s) <= n else s[:n] + "..."


def close(got, want, what, rtol=1e-7, atol=1e-9, key=None):
    """NaN-aware elementwise comparison."""
    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation("%s: shape %s instead of %s" % (what, g.shape, w.shape), key)
    if g.size == 0:
        return
    with np.errstate(all="ignore"):
        ok = (np.abs(g - w) <= atol + rtol * np.maximum(np.abs(w), np.abs(g))) | (g == w) | (np.isnan(g) & np.isnan(w))
    if not ok.all():
        raise Violation("%s: got %s, expected %s" % (what, show(g), show(w)), key)


def is_close(got, want, rtol=1e-7, atol=1e-9):
    try:
        close(got, want, "", rtol, atol)
        return True
    except Violation:
        return False


def raises(fn, exc=Exception):
    """Return the exception raised by fn or None."""
    try:
        fn()
    except exc as e:
        return e
    return None


def snapshot(o):
    """Deep, type-aware snapshot of caller data for before/after comparison."""
    if isinstance(o, pd.DataFrame):
        return (
            "df",
            [str(c) for c in o.columns],
            [str(t) for t in o.dtypes],
            [repr(i) for i in o.index],
            [o.iloc[:, j].to_numpy().tobytes() if o.dtypes.iloc[j] != object else repr(o.iloc[:, j].tolist())
             for j in range(o.shape[1])],
        )
    if isinstance(o, pd.Series):
        return ("series", str(o.dtype), str(o.name), [repr(i) for i in o.index], o.to_numpy().tobytes())
    if isinstance(o, np.ndarray):
        return ("arr", str(o.dtype), o.shape, np.ascontiguousarray(o).tobytes() if o.dtype != object else repr(o.tolist()))
    if isinstance(o, dict):
        return ("dict", [(repr(k), snapshot(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snapshot(v) for v in o])
    return repr(o)
