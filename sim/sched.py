"""
Line-level seams, by Python's trace mechanism: interrupts at the n-th executed line of the code under test,
and a deterministic scheduler of real threads (parked and released one at a time; a seeded choice decides
who runs after each traced line).
"""
import os
import sys
import threading

import numpy as np

from . import core

PREFIX = os.path.join(core.REPO, "freegs") + os.sep


class Own(Exception):
    """An error of the caller's own"""


class OwnBase(BaseException):
    """An interrupt of the caller's own (such as a test runner's or a job scheduler's)"""


# What code called back by freegs may raise
CALL_EXC = {"INT": KeyboardInterrupt, "ERR": RuntimeError, "VAL": ValueError, "MEM": MemoryError, "FPE": FloatingPointError, "LIN": np.linalg.LinAlgError, "KEY": KeyError,
            "IDX": IndexError, "TYP": TypeError, "ATT": AttributeError, "OSE": OSError, "ASS": AssertionError, "ZER": ZeroDivisionError, "STP": StopIteration, "NIM": NotImplementedError,
            "EXIT": SystemExit, "OWN": Own, "OWB": OwnBase, "WRN": UserWarning, "TMO": TimeoutError}
# What may arrive at any line
LINE_EXC = {"INT": KeyboardInterrupt, "MEM": MemoryError, "EXIT": SystemExit, "OWB": OwnBase}


def in_repo(frame):
    return frame.f_code.co_filename.startswith(PREFIX)


class LineTracer:
    """Counts lines of freegs code executed in this thread; raises `exc` at line number `at` (1-based)"""

    def __init__(self, at=None, exc=KeyboardInterrupt, sim=None):
        self.at, self.exc, self.sim = at, exc, sim
        self.n = 0
        self.fired = False
        self.where = None
        self.active = True

    def _local(self, frame, event, arg):
        if event == "line" and self.active:
            self.n += 1
            if self.at is not None and self.n == self.at and not self.fired:
                self.fired = True
                self.where = "%s:%s" % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                if self.sim is not None:
                    self.sim.time += self.n
                    self.sim.fault("interrupt")
                    self.sim.event("interrupted in", self.where)
                raise self.exc()
        return self._local

    def _global(self, frame, event, arg):
        if in_repo(frame):
            return self._local
        return None

    def stop(self):
        """No more interrupts (the guarded region has been left)"""
        self.active = False

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


class Threads:
    """
    Runs several functions as real threads, exactly one at a time. After every traced line of freegs code the
    seeded scheduler may hand over to another thread. At most max_switches hand-overs happen.
    """

    def __init__(self, rng, p=0.02, max_switches=400, sim=None):
        self.rng, self.p, self.max_switches, self.sim = rng, p, max_switches, sim
        self.lines = 0
        self.switches = 0
        self.where = []

    def run(self, funcs):
        n = len(funcs)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.results = [None] * n
        self.errors = [None] * n
        self.done = threading.Event()

        def body(i):
            self.sems[i].acquire()

            def local(frame, event, arg):
                if event == "line":
                    self._tick(i, frame)
                return local

            def glob(frame, event, arg):
                return local if in_repo(frame) else None

            sys.settrace(glob)
            try:
                self.results[i] = funcs[i]()
            except BaseException as e:  # recorded, judged by the caller
                self.errors[i] = e
            finally:
                sys.settrace(None)
                self.alive.discard(i)
                if self.alive:
                    j = self.rng.choice(sorted(self.alive))
                    self.sems[j].release()
                else:
                    self.done.set()

        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        self.sems[self.rng.choice(range(n))].release()
        self.done.wait()
        for t in threads:
            t.join()
        if self.sim is not None:
            self.sim.time += self.lines
            self.sim.probe("thread_switches", self.switches)
            self.sim.event("threads", n, "lines", self.lines, "switches", self.switches)
            self.sim.state("interleaving", tuple(self.where))
        return self.results, self.errors

    def _tick(self, i, frame):
        self.lines += 1
        if self.switches >= self.max_switches or len(self.alive) < 2:
            return
        if self.rng.random() < self.p:
            j = self.rng.choice(sorted(self.alive))
            if j != i:
                self.switches += 1
                self.where.append((i, j, frame.f_code.co_name, self.lines))
                self.sems[j].release()
                self.sems[i].acquire()
