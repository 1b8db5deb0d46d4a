"""Runner: exhaustively explores the spaces of one property.

    python -m mc.run C01 --tier quick
    python -m mc.run C01 --replay replays/C01-....json
"""
import argparse
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

from mc.core import Rec, Violation

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET = {"quick": 420.0, "thorough": 3 * 3600.0}
CASE_TIMEOUT = 120
MAX_REPORT = 3

_SPACES = {}  # name -> (list of cases, check)


class _Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise _Hang()


def _quiet():
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np

    np.seterr(all="ignore")


def load_known():
    known = {}
    path = os.path.join(ROOT, "known-findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#") or line.startswith("fixed:"):
                    continue
                d = json.loads(line)
                if d.get("status") == "open":
                    known[(d["property"], d["key"])] = d["what"]
    return known


def run_case(check, case, rec, timeout=CASE_TIMEOUT):
    """Run one case; return None or (msg, key)."""
    _quiet()
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(timeout)
    try:
        check(case, rec)
        return None
    except Violation as v:
        return v.msg, v.key
    except _Hang:
        return "no result within %d s" % timeout, "hang"
    except Exception as e:  # the code under test must not raise here
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for fr in tb:
            if "/cyclic_boosting/" in fr.filename:
                where = " in %s:%s" % (os.path.basename(fr.filename), fr.name)
        where_v = " (check line %s:%d)" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        for fr in tb:
            if "/mc/props/" in fr.filename:
                where_v = " (check line %s:%d)" % (os.path.basename(fr.filename), fr.lineno)
        return "unexpected %s: %s%s%s" % (type(e).__name__, str(e)[:300], where, where_v), "exception"
    finally:
        signal.alarm(0)


def _work(task):
    name, start, stop, order, known_keys, prop = task
    cases, check = _SPACES[name]
    rec = Rec()
    viol = []
    known = {}
    n = 0
    slow = 0.0
    for i in range(start, stop):
        case = cases[order[i] if order is not None else i]
        t0 = time.time()
        r = run_case(check, case, rec)
        slow = max(slow, time.time() - t0)
        n += 1
        if r is not None:
            msg, key = r
            if key is not None and (prop, key) in known_keys:
                known[key] = known.get(key, 0) + 1
            else:
                viol.append((name, case, msg, key))
                if len(viol) >= MAX_REPORT:
                    break
    return name, n, rec.transitions, rec.traces, rec.states, rec.outcomes, viol, known, slow


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--space")
    ap.add_argument("--limit", type=int)
    ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--keep-going", action="store_true")
    args = ap.parse_args()
    t_start = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    _quiet()

    import cyclic_boosting

    if not os.path.realpath(cyclic_boosting.__file__).startswith("/repo/"):
        print("error: cyclic_boosting is not imported from /repo")
        return 3
    try:
        mod = importlib.import_module("mc.props." + args.prop.lower())
    except ModuleNotFoundError as e:
        print("error:", e)
        return 3
    known_map = load_known()

    if args.replay:
        with open(args.replay) as f:
            d = json.load(f)
        spaces = {s.name: s for s in mod.spaces(d.get("tier", args.tier))}
        sp = spaces[d["space"]]
        if sp.warm:
            sp.warm()
        r = run_case(sp.check, d["case"], Rec())
        if r is None:
            print("replay: no violation")
            return 0
        print("replay:", r[0])
        print("VIOLATION property=%s replay=%s" % (args.prop, args.replay))
        return 1

    budget = BUDGET[args.tier]
    tasks = []
    space_info = {}
    rng = random.Random(seed)
    for sp in mod.spaces(args.tier):
        if args.space and sp.name != args.space:
            continue
        cases = list(sp.cases())
        if args.limit:
            cases = cases[: args.limit]
        _SPACES[sp.name] = (cases, sp.check)
        if sp.warm and not sp.warm_in_child:
            try:
                sp.warm()
            except Exception:  # the cases will show what is wrong
                traceback.print_exc()
        order = list(range(len(cases)))
        rng.shuffle(order)
        chunk = sp.chunk or max(1, min(200, len(cases) // (args.procs * 12) or 1))
        for s in range(0, len(cases), chunk):
            tasks.append((sp.name, s, min(s + chunk, len(cases)), order, set(known_map), args.prop))
        space_info[sp.name] = {"cases": len(cases), "bound": sp.bound, "run": 0}
    if not tasks:
        print("error: empty exploration")
        return 3
    # interleave spaces so that every space makes progress from the start
    rng.shuffle(tasks)

    transitions = traces = 0
    states = set()
    outcomes = {}
    viol = []
    known_hits = {}
    slowest = 0.0
    stopped = None
    ctx = mp.get_context("fork")
    global _TASKS
    _TASKS = tasks
    if args.procs > 1:
        pool = ctx.Pool(args.procs, maxtasksperchild=None)
        it = pool.imap_unordered(_work_i, range(len(tasks)))
    else:
        pool = None
        it = (_work(t) for t in tasks)
    done = 0
    try:
        while done < len(tasks):
            left = budget - (time.time() - t_start)
            if left <= 0:
                stopped = "time budget of %d s" % budget
                break
            try:
                res = it.next(timeout=left) if pool else next(it)
            except mp.TimeoutError:
                stopped = "time budget of %d s" % budget
                break
            done += 1
            name, n, tr, tc, st, oc, vs, kn, slow = res
            space_info[name]["run"] += n
            transitions += tr
            traces += tc
            states |= st
            slowest = max(slowest, slow)
            for k, v in oc.items():
                k = name + "/" + k
                outcomes[k] = outcomes.get(k, 0) + v
            for k, v in kn.items():
                known_hits[k] = known_hits.get(k, 0) + v
            viol.extend(vs)
            if viol and not args.keep_going:
                stopped = "first violation"
                break
    finally:
        if pool:
            pool.terminate()
            pool.join()

    complete = stopped is None and all(i["run"] == i["cases"] for i in space_info.values())
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    samples = []
    for name, (cases, _) in _SPACES.items():
        for c in rng.sample(cases, min(2, len(cases))):
            s = json.dumps(c)
            samples.append({"space": name, "case": c if len(s) < 1500 else s[:1500]})
    reports = []
    for name, case, msg, key in viol[:10]:
        h = hashlib.sha1((name + json.dumps(case, sort_keys=True)).encode()).hexdigest()[:10]
        path = os.path.join(ROOT, "replays", "%s-%s-%s.json" % (args.prop, name, h))
        with open(path, "w") as f:
            json.dump({"property": args.prop, "space": name, "tier": args.tier, "case": case, "message": msg, "key": key}, f)
        reports.append((path, msg, name, case))
    ev = {
        "property": args.prop,
        "tier": args.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "samples": samples[:8],
            "exhaustive": complete,
            "cases": sum(i["run"] for i in space_info.values()),
            "spaces": space_info,
            "outcomes": dict(sorted(outcomes.items())[:80]),
            "slowest_case_s": round(slowest, 3),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": len(viol),
        "wall_s": round(time.time() - t_start, 2),
    }
    if stopped and not viol:
        ev["coverage"]["capped_by"] = stopped
    if known_hits:
        ev["coverage"]["known_findings_hit"] = known_hits
    with open(os.path.join(ROOT, "evidence", args.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for key in sorted(known_hits):
        print("KNOWN-FINDING: property=%s %s" % (args.prop, known_map[(args.prop, key)]))
    print(
        "%s %s: %d cases, %d states, %d transitions, %d traces validated, exhaustive=%s, %.1f s"
        % (args.prop, args.tier, ev["coverage"]["cases"], len(states), transitions, traces, complete, ev["wall_s"])
    )
    if viol:
        for path, msg, name, case in reports:
            print("  [%s] %s" % (name, msg))
            print("    case: %s" % json.dumps(case)[:600])
            print("VIOLATION property=%s replay=%s" % (args.prop, path))
        return 1
    return 0


_TASKS = []


def _work_i(i):
    return _work(_TASKS[i])


def isolated(fn, args, procs=8):
    """Map fn over args, each call in a process of its own forked from here."""
    with mp.get_context("fork").Pool(procs, maxtasksperchild=1) as pool:
        return pool.map(fn, args, chunksize=1)


class Space:
    def __init__(self, name, cases, check, bound, warm=None, warm_in_child=False, chunk=None):
        self.name = name
        self._cases = cases
        self.check = check
        self.bound = bound
        self.warm = warm
        self.warm_in_child = warm_in_child
        self.chunk = chunk

    def cases(self):
        return self._cases() if callable(self._cases) else self._cases


if __name__ == "__main__":
    # make `mc.run.Space` and `__main__.Space` the same module object
    sys.modules["mc.run"] = sys.modules["__main__"]
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
