"""Threads under a seeded scheduler: one runs at a time, switches at lines of the library.

The switch points come from the plan: a list of [lines until the switch, who
runs next].  Locks created by the library are cooperative (see `install`).
"""

import sys
import threading

from .. import boot
from .ctx import HarnessError, LineFault, SimViolation, leaving_with

active = None       # the scheduler now running threads
_Thread, _Semaphore, _allocate = threading.Thread, threading.Semaphore, threading.Lock


class Deadlock(BaseException):
    pass


class Scheduler:
    LIMIT = 2_000_000

    def __init__(self, ctx, switches, opcodes=False):
        self.ctx, self.switches, self.opcodes = ctx, [list(s) for s in switches], opcodes
        self.done_switches, self.steps = 0, 0

    def run(self, fns, faults=None):
        """Run all; returns [(value, exception)].  `faults`: {index: line fault spec}."""
        global active
        n = len(fns)
        self.alive, self.results = list(range(n)), [None] * n
        self.gates = [_Semaphore(0) for _ in range(n)]
        self.home = _Semaphore(0)
        self.faults = {k: dict(v, n=0) for k, v in (faults or {}).items()}
        for f in self.faults.values():
            self.ctx.faults_set["line-" + f["exc"]] += 1
        self.fatal, self.current, self.order = None, None, []
        self.left, self.to = self._next()
        threads = [_Thread(target=self._main, args=(k, fn), daemon=True) for k, fn in enumerate(fns)]
        active = self
        try:
            for t in threads:
                t.start()
            self._give(0)
            self.home.acquire()
        finally:
            active = None
        if self.fatal:
            raise self.fatal
        return self.results

    # -- inside threads -----------------------------------------------------
    def _next(self):
        return tuple(self.switches.pop(0)) if self.switches else (None, 0)

    def _give(self, k):
        self.current = k
        self.gates[k].release()

    def _main(self, k, fn):
        self.gates[k].acquire()
        sys.settrace(self._global)
        value = exc = None
        try:
            value = fn()
        except BaseException as e:
            exc = e
        sys.settrace(None)
        self.results[k] = (value, exc)
        if isinstance(exc, (SimViolation, HarnessError, Deadlock)):
            self.fatal = self.fatal or (exc if not isinstance(exc, Deadlock) else SimViolation("concurrent runs wait for each other", ""))
        self.alive.remove(k)
        if self.alive:
            self._give(self.alive[self.to % len(self.alive)])
        else:
            self.home.release()

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(boot.PKG) and not LineFault.paused:
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.steps += 1
            if self.steps > self.LIMIT:
                self.fatal = SimViolation("concurrent runs do not end", f"{self.steps} steps")
                raise Deadlock
            if event == "line":
                self._fault(frame)
            if self.left is not None and not LineFault.paused:
                self.left -= 1
                if self.left <= 0:
                    to = self.to
                    self.left, self.to = self._next()
                    self.switch(to, frame)
        return self._local

    def _fault(self, frame):
        f = self.faults.get(self.current)
        if f and not f.get("fired"):
            f["n"] += 1
            if f["n"] > f["at"] and not leaving_with(frame):
                f["fired"] = True
                self.ctx.fault("line-" + f["exc"])
                raise LineFault.KINDS[f["exc"]]("injected")

    def switch(self, to, frame=None):
        me = self.current
        others = [k for k in self.alive if k != me]
        if not others:
            return False
        k = others[to % len(others)]
        self.done_switches += 1
        if frame is not None:
            self.order.append((me, k, frame.f_code.co_name, frame.f_lineno))
        self._give(k)
        self.gates[me].acquire()
        if self.fatal:
            raise Deadlock
        return True


class SimLock:
    """A lock created by the library: waiting gives way to another thread."""

    def __init__(self, reentrant):
        self.reentrant, self.owner, self.count = reentrant, None, 0

    def _me(self):
        return active.current if active is not None else threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        tries = 0
        while self.owner is not None and not (self.reentrant and self.owner == self._me()):
            if not blocking or timeout >= 0:
                return False
            tries += 1
            if active is None or tries > 10000 or not active.switch(tries):
                raise SimViolation("a lock is never released", "")
        self.owner, self.count = self._me(), self.count + 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


def install():
    def from_library():
        f = sys._getframe(2)
        return f.f_code.co_filename.startswith(boot.PKG)
    lock, rlock = threading.Lock, threading.RLock

    def Lock():
        return SimLock(False) if from_library() else lock()

    def RLock():
        return SimLock(True) if from_library() else rlock()
    threading.Lock, threading.RLock = Lock, RLock
