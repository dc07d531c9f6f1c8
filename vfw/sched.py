"""Controlled scheduler: runs real threads one at a time and switches only at chosen points.

A decision point is every source line executed inside the code under test
(file name prefix).  A schedule is a list of (thread, number of decision points
or None = until it ends); it is followed exactly, so the same schedule always
gives the same interleaving.  If a thread cannot go on because the suspended
one holds a lock, the schedule is infeasible: all threads are then released
and run to the end freely (the outcome still has to be right).
"""
import sys
import threading

STUCK = 3.0


class Controlled:
    def __init__(self, fns, prefix, stuck=STUCK):
        self.fns, self.prefix, self.stuck = fns, prefix, stuck
        self.n = len(fns)
        self.cv = threading.Condition()
        self.current = None      # thread allowed to run
        self.budget = None       # decision points left for it
        self.done = [False] * self.n
        self.result = [None] * self.n
        self.error = [None] * self.n
        self.events = [0] * self.n
        self.lines = [[] for _ in fns]
        self.free = False
        self.record = False

    # ---- in the worker threads
    def _local(self, i):
        def local(frame, event, arg):
            if event == "line":
                self._point(i, frame)
            return local
        return local

    def _global(self, i):
        local = self._local(i)

        def tracer(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(self.prefix):
                return local
            return None
        return tracer

    def _point(self, i, frame):
        if self.free:
            return
        self.events[i] += 1
        if self.record:
            self.lines[i].append((frame.f_code.co_filename, frame.f_lineno))
        if self.budget is None:
            return
        if self.budget > 0:
            self.budget -= 1
            return
        with self.cv:
            self.current = None
            self.cv.notify_all()
            while self.current != i and not self.free:
                self.cv.wait()

    def _work(self, i):
        with self.cv:
            while self.current != i and not self.free:
                self.cv.wait()
        sys.settrace(self._global(i))
        try:
            self.result[i] = self.fns[i]()
        except BaseException as e:  # reported by the check
            self.error[i] = e
        finally:
            sys.settrace(None)
            with self.cv:
                self.done[i] = True
                if self.current == i:
                    self.current = None
                self.cv.notify_all()

    # ---- in the controlling thread
    def run(self, schedule):
        ts = [threading.Thread(target=self._work, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        feasible = True
        plan = list(schedule) + [(i, None) for i in range(self.n)]
        for i, budget in plan:
            if self.done[i]:
                continue
            with self.cv:
                self.current, self.budget = i, budget
                self.cv.notify_all()
                ok = self.cv.wait_for(lambda: self.current is None, timeout=self.stuck if not all(self.done[j] or j == i for j in range(self.n)) else None)
                if not ok:
                    feasible = False
                    self.free = True
                    self.cv.notify_all()
            if not feasible:
                break
        for t in ts:
            t.join(120)
        return feasible
