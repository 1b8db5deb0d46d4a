"""C13: copies of a model behave like the model."""
import copy
import itertools
import pickle

import numpy as np
import sklearn.base

from cyclic_boosting.utils import clone as cb_clone
from mc.core import close, ensure, raises
from mc.est import GENERIC, REGS, raw_predict, warm_basic
from mc.run import Space, isolated
from mc.props import c12

ASSUMPTIONS = ["cost functions passed to custom-loss models are importable (picklable)"]


def do_copy(how, m):
    if how == "pickle":
        return pickle.loads(pickle.dumps(m))
    if how == "pickle2":
        return pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(m, protocol=2)), protocol=4))
    if how == "deepcopy":
        return copy.deepcopy(m)
    if how == "clone":
        return cb_clone(m)
    if how == "skclone":
        return sklearn.base.clone(m)
    raise KeyError(how)


HOWS = ["pickle", "deepcopy", "clone", "pickle2", "skclone"]
SUFFIX = ["oA", "oB", "cA", "cB", "oU", "cU", "oX", "cX"]


def cases(tier):
    out = []
    k = 0
    for kind in REGS + ["expo", "nbinomc"]:
        for cfg in c12.CONFIGS:
            if kind in ("expo", "nbinomc") and cfg in ("hier", "noagg", "default"):
                continue
            for how in HOWS:
                for pre in ((), ("A",), ("B", "A"), ("C",)):
                    if how in ("clone", "skclone") and pre == ("B", "A"):
                        continue
                    depth = 2 if tier == "quick" else 3
                    for d in range(0, depth + 1):
                        for suf in itertools.product(SUFFIX, repeat=d):
                            k += 1
                            if d == 1 and tier == "quick" and k % 2:
                                continue
                            if d == 2 and k % (23 if tier == "quick" else 3):
                                continue
                            if d == 3 and k % 37:
                                continue
                            out.append({"kind": kind, "cfg": cfg, "how": how, "pre": list(pre), "suf": list(suf)})
    for kind in GENERIC:
        for how in HOWS:
            out.append({"kind": kind, "cfg": "opts", "how": how, "pre": ["A"], "suf": ["oB", "cU"]})
            out.append({"kind": kind, "cfg": "opts", "how": how, "pre": [], "suf": ["cA", "oU"]})
    # all of depth 3 for one model
    for how in ("pickle", "deepcopy"):
        for suf in itertools.product(SUFFIX, repeat=3):
            out.append({"kind": "poisson", "cfg": "plain", "how": how, "pre": ["A"], "suf": list(suf)})
    return out


_ref = {}


def warm(cases_):
    def go():
        warm_basic()
        keys = sorted({(c["kind"], c["cfg"], f) for c in cases_ for f in "ABC"})
        _ref.update(zip(keys, isolated(c12.fresh_or_error, keys)))

    return go


def ref(kind, cfg, name):
    key = (kind, cfg, name)
    if key not in _ref:
        _ref[key] = c12.fresh(key)
    ensure(isinstance(_ref[key], dict), "training a fresh model fails: %s" % (_ref[key],))
    return _ref[key]


def expect(rec, kind, cfg, m, last, what):
    rec.op()
    if last is None:
        ensure(raises(lambda: m.predict(c12.query(kind))) is not None, "%s: unfitted, but it predicts" % what)
        ensure(raises(lambda: m.get_feature_importances()) is not None, "%s: unfitted, but it reports importances" % what)
        return
    got = c12.report(kind, m)
    c12.same(got, ref(kind, cfg, last), what)


def check(case, rec):
    kind, cfg = case["kind"], case["cfg"]
    o = c12.build(kind, cfg)
    last_o = None
    for name in case["pre"]:
        o.fit(*c12.data(kind, name))
        last_o = name
        rec.op()
    try:
        c = do_copy(case["how"], o)
    except Exception as e:
        ensure(False, "%s: %s of the model fails: %s: %s" % (kind, case["how"], type(e).__name__, e))
    rec.op()
    last_c = None if case["how"] in ("clone", "skclone") else last_o
    tag = "%s %s after %s then %s" % (kind, case["how"], case["pre"], case["suf"])
    ensure(type(c) is type(o), "%s: copy has another type" % tag)
    for s in case["suf"]:
        who, op = s
        m = o if who == "o" else c
        if op in "AB":
            m.fit(*c12.data(kind, op))
            if who == "o":
                last_o = op
            else:
                last_c = op
        elif op == "U":
            last = last_o if who == "o" else last_c
            expect(rec, kind, cfg, m, last, "%s: %s in between" % (tag, {"o": "original", "c": "copy"}[who]))
        elif op == "X":
            X, y = c12.data(kind, "A")
            y[0] = np.nan
            raises(lambda: m.fit(X, y))
        rec.op()
    expect(rec, kind, cfg, o, last_o, tag + ": original")
    expect(rec, kind, cfg, c, last_c, tag + ": copy")
    rec.trace()
    rec.state(kind, cfg, case["how"], last_o, last_c)


def other_cases(tier):
    out = []
    for obj in ("bins", "bins_w", "ecdf", "pipe_poisson", "pipe_location", "pipe_classifier", "chain"):
        for how in ("pickle", "deepcopy", "skclone"):
            for pre in ((), ("A",), ("B",)):
                for d in (0, 1, 2):
                    for suf in itertools.product(["oA", "oB", "cA", "cB", "oU", "cU"], repeat=d):
                        if obj == "chain" and (d == 2 and len(out) % 6 or how == "skclone"):
                            out.append(None)
                            continue
                        if obj.startswith("pipe") and d == 2 and tier == "quick" and len(out) % 2:
                            out.append(None)
                            continue
                        out.append({"obj": obj, "how": how, "pre": list(pre), "suf": list(suf)})
    return [c for c in out if c]


def check_other(case, rec):
    obj = case["obj"]
    o = c12.other_new(obj)
    last = {"o": None, "c": None}
    for name in case["pre"]:
        c12.other_fit(obj, o, name)
        last["o"] = name
    if case["how"] == "skclone":
        # pipelines and binners are cloned the way model selection does
        if obj.startswith("pipe"):
            from sklearn.pipeline import Pipeline

            c = Pipeline([(n, cb_clone(s)) for n, s in o.steps])
        else:
            c = sklearn.base.clone(o)
    else:
        c = do_copy(case["how"], o)
        last["c"] = last["o"]
    rec.op(2)
    objs = {"o": o, "c": c}
    tag = "%s %s after %s then %s" % (obj, case["how"], case["pre"], case["suf"])

    def probe(w):
        rec.op()
        if last[w] is None:
            ensure(raises(lambda: c12.other_use(obj, objs[w])) is not None, "%s: %s works without being fitted" % (tag, w))
            return
        f = c12.other_fit(obj, c12.other_new(obj), last[w])
        close(c12.other_use(obj, objs[w]), c12.other_use(obj, f), "%s: %s" % (tag, {"o": "original", "c": "copy"}[w]), 1e-12, 1e-13)

    for s in case["suf"]:
        w, op = s
        if op in "AB":
            c12.other_fit(obj, objs[w], op)
            last[w] = op
        else:
            probe(w)
        rec.op()
    probe("o")
    probe("c")
    rec.trace()
    rec.state(obj, case["how"], last["o"], last["c"], len(case["suf"]))


def spaces(tier):
    cs = cases(tier)
    return [
        Space("estimators", cs, check, "13 estimators x up to 6 configurations x 5 ways of copying x 4 histories before, then operation sequences on original and copy up to depth 2 (3 in thorough; all 512 of depth 3 for Poisson): shares stated by the case count", warm=warm(cs)),
        Space("others", lambda: other_cases(tier), check_other, "binners, 3 pipelines, distribution chain: all sequences of 6 operations on original and copy up to depth 2"),
    ]
