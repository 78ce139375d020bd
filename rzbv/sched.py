"""Schedules of threads: only one thread runs at a time, and a seeded generator chooses which one at every line (or
bytecode) of the package, so that a case always follows the same schedule."""
import sys
import threading
import time

import numpy as np

from .sut import SRC

PACKAGE = str(SRC / "razorback")


class Deterministic:
    def __init__(self, seed, p, opcodes=False):
        self.rng = np.random.RandomState(seed)
        self.p = p
        self.opcodes = opcodes
        self.cond = threading.Condition()
        self.alive = []
        self.current = None
        self.free = False      # a thread is blocked elsewhere: no schedule any more
        self.switches = 0

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PACKAGE):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event in ("line", "opcode"):
            self.point()
        return self.local

    def point(self):
        me = threading.get_ident()
        with self.cond:
            if self.free or len(self.alive) < 2 or self.rng.random_sample() >= self.p:
                return
            others = [k for k in self.alive if k != me]
            self.give(others[self.rng.randint(len(others))])
            self.wait(me)

    def give(self, to):
        self.current = to
        self.switches += 1
        self.cond.notify_all()

    def wait(self, me):
        if not self.cond.wait_for(lambda: self.free or self.current == me, timeout=20):
            self.free = True
            self.cond.notify_all()

    def run(self, tasks):
        """outcomes of tasks: (failed, result)"""
        out = [None] * len(tasks)
        ready = threading.Barrier(len(tasks) + 1)
        ids = [None] * len(tasks)

        def body(k):
            ids[k] = me = threading.get_ident()
            ready.wait()
            with self.cond:
                self.wait(me)
            sys.settrace(self.trace)
            try:
                out[k] = outcome(tasks[k])
            finally:
                sys.settrace(None)
                with self.cond:
                    self.alive.remove(me)
                    if self.alive and not self.free:
                        self.give(self.alive[self.rng.randint(len(self.alive))])
        threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(tasks))]
        for t in threads:
            t.start()
        while any(i is None for i in ids):
            time.sleep(1e-4)
        with self.cond:
            self.alive = list(ids)
            self.current = ids[self.rng.randint(len(ids))]
        ready.wait()
        for t in threads:
            t.join()
        return out


def outcome(task):
    try:
        return None, task()
    except Exception as e:
        return type(e), e


class Noise:
    """threads made meanwhile (those of dask) stop for a short while at random lines of the package"""

    def __init__(self, seed, p):
        self.rng = np.random.RandomState(seed)
        self.lock = threading.Lock()
        self.p = p
        self.pauses = 0

    def trace(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(PACKAGE) else None

    def local(self, frame, event, arg):
        if event == "line":
            with self.lock:
                r = self.rng.random_sample()
            if r < self.p:
                self.pauses += 1
                time.sleep(0 if r < .5 * self.p else 2e-4)
        return self.local

    def __enter__(self):
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        threading.settrace(self.trace)
        return self

    def __exit__(self, *exc):
        threading.settrace(None)
        sys.setswitchinterval(self.interval)
