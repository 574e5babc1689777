"""Seeded cooperative scheduler over real threads.

Each simulated client runs in its own thread; exactly one is released at a time.
A client reaches a scheduling point at every source line executed by code of the
package, at every call the package makes into other Python code, at every lock
operation and, in call mode, before and after every call of native code it makes. Native code of the
package that runs without the interpreter lock has points of its own. The schedule is data:
a list of [global step, thread] preemptions. Nothing else decides who runs.
"""
import _thread
import ctypes
import os
import sys
import threading

from . import shim
from .env import REPO

PKG = os.path.join(os.path.realpath(REPO), "deodr") + os.sep
_is_pkg = {}


def in_pkg(filename):
    r = _is_pkg.get(filename)
    if r is None:
        r = _is_pkg[filename] = os.path.realpath(filename).startswith(PKG)
    return r


CURRENT = None  # the active Scheduler, if any


class StepLimit(BaseException):
    pass


class _Killed(BaseException):
    pass


class Scheduler:
    def __init__(self, bodies, preempt=(), mode="line", max_steps=2_000_000, log=None, faults=(), at=()):
        """bodies: list of callables; preempt: [[step, tid]...]; at: [[tid, local step, to tid]...];
        faults: [[tid, local step, exc name]]; log: a list that receives the location of every point"""
        self.n = len(bodies)
        self.bodies = bodies
        self.pre = {}
        for s, t in preempt:
            self.pre[int(s)] = int(t)
        self.at = {(int(t), int(k)): int(to) for t, k, to in at}
        self.log = log
        self.mode = mode
        self.step = 0
        self.local = [0] * self.n
        self.max_steps = max_steps
        self.gates = [_thread.allocate_lock() for _ in range(self.n)]
        for g in self.gates:
            g.acquire()
        self.done = [False] * self.n
        self.blocked = [None] * self.n
        self.cur = None
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.errors = [None] * self.n
        self.ident = {}
        self.switches = 0
        self.trace_hash = 1469598103934665603
        self.switch_log = []
        self.killed = False
        self.limit_hit = False
        self.native_points = 0
        self.deadlock = False
        self.faults = {(int(t), int(s)): e for t, s, e in faults}
        self.fault_fired = []

    # -- scheduling ---------------------------------------------------------
    def _runnable(self, t):
        return not self.done[t] and (self.blocked[t] is None or self.blocked[t]._free_for(t))

    def _next(self, frm):
        for k in range(1, self.n + 1):
            t = (frm + k) % self.n
            if t != frm and self._runnable(t):
                return t
        return None

    def _switch(self, me, to, wait=True):
        self.switches += 1
        self.trace_hash = ((self.trace_hash ^ (self.step * 31 + to)) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
        if len(self.switch_log) < 400:
            self.switch_log.append((self.step, me, to))
        self.cur = to
        self.gates[to].release()
        if wait:
            self.gates[me].acquire()
            if self.killed:
                raise _Killed()

    def point(self, me, loc=None):
        """A scheduling point of the running client."""
        if self.killed:
            raise _Killed()
        self.step += 1
        self.local[me] += 1
        if self.step > self.max_steps:
            self.limit_hit = True
            self.killed = True
            raise StepLimit()
        if self.log is not None:
            self.log.append(loc)
        to = self.pre.get(self.step)
        if to is None and self.at:
            to = self.at.get((me, self.local[me]))
        if to is not None and self.n > 1:
            to %= self.n
            if to == me or not self._runnable(to):
                to = self._next(me)
            if to is not None:
                if loc is not None and len(self.switch_log) < 400:
                    self.switch_log.append((self.step, me, to, loc))
                self._switch(me, to)
        f = self.faults.pop((me, self.local[me]), None) if self.faults else None
        if f is not None:
            self.fault_fired.append((me, self.local[me], f, loc))
            raise {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[f]("injected")

    def block_on(self, me, lock):
        """me cannot proceed until lock is free."""
        self.blocked[me] = lock
        to = self._next(me)
        if to is None:
            self.deadlock = True
            self.killed = True
            raise _Killed()
        self._switch(me, to)
        self.blocked[me] = None

    def native_point(self):
        """A scheduling point inside native code that does not hold the interpreter lock."""
        me = self.tid()
        if me is None or self.killed or self.cur != me:
            return
        self.native_points += 1
        try:
            self.point(me, ("native", 0))
        except (_Killed, StepLimit):
            pass  # native code cannot be unwound; the client stops at its next point in Python code

    # -- threads ------------------------------------------------------------
    def tid(self):
        return self.ident.get(_thread.get_ident())

    def _main(self, t):
        # Tracing starts in every thread before any body runs and stops after all have finished: CPython 3.12
        # re-instruments code objects when tracing changes, which must not happen in the middle of an event.
        self.ident[_thread.get_ident()] = t
        sys.settrace(make_tracer(self, t))
        if self.mode == "call":
            sys.setprofile(make_profiler(self, t))
        self.ready[t].release()
        self._body(t)
        self.exits[t].acquire()
        sys.setprofile(None)
        sys.settrace(None)

    def _body(self, t):
        self.gates[t].acquire()
        try:
            if not self.killed:
                self.bodies[t]()
        except (_Killed, StepLimit):
            pass
        except BaseException as e:  # noqa
            self.errors[t] = e
        self.done[t] = True
        if self.killed:
            rest = [k for k in range(self.n) if not self.done[k]]
            to = rest[0] if rest else None
        else:
            to = self._next(t)
            if to is None and not all(self.done):
                self.deadlock = True
                self.killed = True
                to = [k for k in range(self.n) if not self.done[k]][0]
        if to is None:
            self.finished.release()
        else:
            self._switch(t, to, wait=False)

    def run(self, first=0):
        global CURRENT
        assert CURRENT is None
        CURRENT = self
        native = shim.native_points(self.native_point)
        self.ready = [_thread.allocate_lock() for _ in range(self.n)]
        self.exits = [_thread.allocate_lock() for _ in range(self.n)]
        for lk in self.ready + self.exits:
            lk.acquire()
        ths = [threading.Thread(target=self._main, args=(t,), daemon=True) for t in range(self.n)]
        for t, th in enumerate(ths):
            th.start()
            self.ready[t].acquire()
        self.cur = first % self.n
        self.gates[self.cur].release()
        self.finished.acquire()
        for t, th in enumerate(ths):
            self.exits[t].release()
            th.join()
        native.off()
        CURRENT = None
        return self


def make_tracer(s, me):
    def local(frame, event, arg):
        if event == "line":
            s.point(me, (frame.f_code.co_name, frame.f_lineno))
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        if in_pkg(f):
            return local
        b = frame.f_back
        if b is not None and in_pkg(b.f_code.co_filename):
            # a call out of the package (this is where the engine, too, calls back into Python)
            s.point(me, (b.f_code.co_name, b.f_lineno))
        return None

    return glob


def make_profiler(s, me):
    """Points inside a source line: before and after every call of native code made by the package."""

    def prof(frame, event, arg):
        if (event == "c_call" or event == "c_return") and in_pkg(frame.f_code.co_filename):
            s.point(me, (frame.f_code.co_name, frame.f_lineno))

    return prof


def pause(n=1):
    """Scheduling points of a client's own code."""
    s = CURRENT
    me = s.tid() if s else None
    for _ in range(n if me is not None else 0):
        s.point(me, ("client", 0))


class SimLock:
    """Replacement for threading.Lock inside the package under test."""

    def __init__(self):
        self._l = _thread.allocate_lock()

    def _free_for(self, t):
        return not self._l.locked()

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        me = s.tid() if s else None
        if me is None:
            return self._l.acquire(blocking, timeout)
        s.point(me, ("lock", 0))
        while not self._l.acquire(False):
            if not blocking:
                return False
            s.block_on(me, self)
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle lock")


class SimRLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def _free_for(self, t):
        return self._owner is None

    def acquire(self, blocking=True, timeout=-1):
        ident = _thread.get_ident()
        if self._owner == ident:
            self._count += 1
            return True
        s = CURRENT
        me = s.tid() if s else None
        if me is not None:
            s.point(me, ("lock", 0))
        while self._owner is not None:
            if not blocking:
                return False
            if me is None:
                raise RuntimeError("simulated lock held outside the simulation")
            s.block_on(me, self)
        self._owner = ident
        self._count = 1
        return True

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle lock")
