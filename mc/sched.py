"""A deterministic line-level scheduler for threads running library code.

Every thread runs under a trace function that counts the source lines it
executes inside the library.  A plan fixes how many lines which thread runs
before control passes on; a thread that is not running is blocked, so each plan
is exactly one interleaving of the two line sequences.
"""
import os
import sys
import threading

import cyclic_boosting

ROOT = os.path.dirname(os.path.abspath(cyclic_boosting.__file__)) + os.sep
STALL = 1.5  # seconds without progress after which a blocked partner is resumed


class Run:
    def __init__(self, fns, plan, watch=None):
        self.fns = fns
        self.plan = list(plan)
        self.turn = [threading.Semaphore(0) for _ in fns]
        self.result = [None] * len(fns)
        self.error = [None] * len(fns)
        self.lines = [[] for _ in fns]
        self.done = [False] * len(fns)
        self.progress = 0
        self.quota = None
        self.current = None
        self.watch = watch
        self.switches = 0
        self.free = False
        self.guard = threading.Lock()

    def _next(self, me):
        """Pass control on (the calling thread is the running one)."""
        while self.plan:
            t, n = self.plan.pop(0)
            if not self.done[t]:
                self.current, self.quota = t, n
                break
        else:
            rest = [t for t in range(len(self.fns)) if not self.done[t]]
            if not rest:
                self.current = None
                return
            # unfinished threads in turn, the one that waited longest first
            t = next((t for t in rest if t != me), rest[0])
            self.current, self.quota = t, None
        if self.current != me:
            self.switches += 1
            self.turn[self.current].release()

    def _wait(self, me):
        seen = self.progress
        while not self.turn[me].acquire(timeout=STALL):
            if self.progress == seen:
                self.free = True  # the running thread waits for something this one holds
                return
            seen = self.progress

    def _local(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.progress += 1
                if self.watch is not None:
                    self.watch(me, frame)
                self.lines[me].append((frame.f_code.co_filename, frame.f_lineno))
                if not self.free and self.quota is not None:
                    self.quota -= 1
                    if self.quota <= 0:
                        self._next(me)
                        if self.current != me:
                            self._wait(me)
            return local

        return local

    def _thread(self, me):
        local = self._local(me)

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(ROOT) else None

        self._wait_start(me)
        sys.settrace(tracer)
        try:
            self.result[me] = self.fns[me]()
        except BaseException as e:  # noqa: B902 - reported to the check
            self.error[me] = e
        finally:
            sys.settrace(None)
            self.done[me] = True
            if self.free:
                for s in self.turn:
                    s.release()
            else:
                self._next(me)

    def _wait_start(self, me):
        self.turn[me].acquire()

    def go(self):
        threads = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in threads:
            t.start()
        self._next(None)
        for t in threads:
            t.join(120)
            if t.is_alive():
                raise RuntimeError("scheduler: thread does not finish")
        return self


def points(lines, every=False, cap=2, last=True):
    """Preemption points: all executed lines, or the first `cap` and the last
    executions of each distinct source line."""
    if every:
        return list(range(1, len(lines) + 1))
    where = {}
    for i, l in enumerate(lines):
        where.setdefault(l, []).append(i + 1)
    keep = set()
    for ks in where.values():
        keep.update(ks[:cap])
        if last:
            keep.update(ks[-1:])
    return sorted(keep)
