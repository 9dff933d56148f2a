"""Deterministic scheduler for caller threads.

Real threads, of which exactly one runs at any time; which one is decided here, at trace
events (lines or opcodes of the code under test, calls in the parsing library), at
virtualised locks and at sleeps.  A schedule is either drawn from a seeded generator or an
explicit list of switches [[event number, thread], ...] as recorded by an earlier run.
"""
import _thread
import os
import random
import sys
import threading
import time
import zlib

from . import shim

_real_lock = _thread.allocate_lock
_real_sleep = time.sleep
CURRENT = None  # the active Sched
ALONE = False   # a lock that is held while there is no other thread will never be free


class Deadlock(BaseException):
    pass


class DLock:
    """threading.Lock: a real lock outside, a scheduling point inside the simulation."""

    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        if s is None or not s.managed():
            if ALONE and blocking and not self._l.acquire(False):
                if len(os.listdir("/proc/self/task")) == 1:
                    if timeout is not None and timeout >= 0:
                        shim.advance(timeout)
                        return False
                    raise Deadlock("waits for a lock that nobody will release")
                return self._l.acquire(blocking, timeout)
            elif ALONE and blocking:
                return True
            return self._l.acquire(blocking, timeout)
        s.point()
        tries = 0
        while not self._l.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                tries += 1
                if tries > 50 or not s.others():
                    return False
                s.point(force=True)
            else:
                s.block(self)
        return True

    acquire_lock = acquire

    def release(self):
        self._l.release()
        s = CURRENT
        if s is not None and s.managed():
            s.wake(self)
            s.point()

    release_lock = release

    def locked(self):
        return self._l.locked()

    locked_lock = locked

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _real_lock()


class DRLock:
    def __init__(self):
        self._b = DLock()
        self._o = None
        self._c = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._o == me:
            self._c += 1
            return True
        r = self._b.acquire(blocking, timeout)
        if r:
            self._o, self._c = me, 1
        return r

    def release(self):
        if self._o != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._c -= 1
        if not self._c:
            self._o = None
            self._b.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._o == _thread.get_ident()

    def _release_save(self):
        st = (self._c, self._o)
        self._c, self._o = 0, None
        self._b.release()
        return st

    def _acquire_restore(self, st):
        self._b.acquire()
        self._c, self._o = st

    def _at_fork_reinit(self):
        self.__init__()


def _sleep(t):
    s = CURRENT
    if shim.simulated:
        shim.advance(max(0.0, t))
    if s is None or not s.managed():
        # simulated time passes at once, except for what real threads outside a schedule wait for
        return _real_sleep(min(t, .01) if shim.simulated else t)
    s.slept += max(0.0, t)
    s.point(force=True)


def virtualise_locks():
    threading.Lock = DLock
    threading._allocate_lock = DLock
    threading.RLock = DRLock
    threading._CRLock = DRLock
    _thread.allocate_lock = DLock
    time.sleep = _sleep


def site(code):
    return "%s:%s:%d" % (os.path.basename(code.co_filename), code.co_name, code.co_firstlineno)


class Sched:
    def __init__(self, spec, scope_line, scope_call, opcodes=False, max_events=4_000_000):
        self.spec = spec
        self.rng = random.Random(spec.get("seed", 0))
        self.mode = spec["mode"]
        self.scope_line = scope_line
        self.scope_call = scope_call
        self.opcodes = opcodes
        self.n = 0
        self.max = max_events
        self.switches = []
        self.runnable = []
        self.blocked = {}
        self.sem = []
        self.ident = {}
        self.cur = None
        self.slept = 0.0
        self.failure = None
        self.foreign = False
        self.nblock = 0
        self.done = _real_lock()
        self.done.acquire()
        self.alive = 0
        self.scope_cache = {}
        if self.mode == "explicit":
            self.exp = {a: b for a, b in spec["switches"]}
        if self.mode == "pct":
            # priorities with a few change points
            self.chg = {self.rng.randrange(1, max(2, spec["len"])) for _ in range(spec["d"])}
        if self.mode in ("site", "meet"):
            # a seeded subset of source lines: whoever gets there hands over ("site") or waits
            # until another thread gets to the same line ("meet")
            self.sites = {}
            self.parked = {}
        else:
            self.parked = {}
        if self.mode == "random":
            self.p = spec["p"]
            self._next = self._gap()

    def _gap(self):
        # geometric: next event at which a switch is considered
        return self.n + 1 + int(self.rng.expovariate(1.0) / self.p)

    def managed(self):
        return _thread.get_ident() in self.ident

    def others(self):
        return [t for t in self.runnable if t != self.cur]

    # -- decision points ------------------------------------------------------
    def _hot(self, frame):
        k = (frame.f_code, frame.f_lineno)
        h = self.sites.get(k)
        if h is None:
            at = site(k[0])
            if "only" in self.spec:
                h = at == self.spec["only"]
            else:
                if self.spec.get("by") != "func":
                    at += ":%s" % k[1]
                h = zlib.crc32(("%d/%s" % (self.spec["seed"], at)).encode()) % self.spec["m"] == 0
            self.sites[k] = h
        return h and self.rng.random() < self.spec["q"]

    def _meet(self, at):
        met = [t for t in self.runnable if self.parked.get(t) == at]
        if not met:
            self.parked[self.cur] = at
            o = [t for t in self.runnable if t not in self.parked] or self.runnable
        else:
            for t in met:
                del self.parked[t]
            o = met + [self.cur]
        to = o[self.rng.randrange(len(o))]
        self.parked.pop(to, None)
        return to

    def point(self, force=False, frame=None):
        self.n += 1
        n = self.n
        to = None
        if self.mode == "explicit":
            to = self.exp.get(n)
            if to is not None and to not in self.runnable:
                to = None
            if to is None and force:
                o = self.others()
                to = o[0] if o else None
        elif self.mode == "random":
            if n >= self._next or force:
                self._next = self._gap()
                o = self.others()
                if o:
                    to = o[self.rng.randrange(len(o))]
        elif self.mode == "site":
            if force or frame is not None and self._hot(frame):
                o = self.others()
                if o:
                    to = o[self.rng.randrange(len(o))]
        elif self.mode == "meet":
            if frame is not None and self._hot(frame):
                to = self._meet((frame.f_code, frame.f_lineno))
            elif force:
                o = self.others()
                if o:
                    to = o[self.rng.randrange(len(o))]
        else:
            if n in self.chg or force:
                o = self.others()
                if o:
                    to = o[self.rng.randrange(len(o))]
        if n > self.max:
            self._fail("step budget exhausted")
        if to is not None and to != self.cur:
            self._switch(to)

    def _switch(self, to):
        me = self.cur
        self.parked.pop(to, None)
        self.switches.append([self.n, to])
        self.cur = to
        self.sem[to].release()
        self.sem[me].acquire()

    def block(self, lock):
        me = self.cur
        self.nblock += 1
        self.runnable.remove(me)
        self.blocked[me] = lock
        self.n += 1
        if not self.runnable:
            self._fail("deadlock")
        to = None
        if self.mode == "explicit":
            to = self.exp.get(self.n)
        if to not in self.runnable:
            to = self.runnable[self.rng.randrange(len(self.runnable))] \
                if self.mode != "explicit" else self.runnable[0]
        self._switch(to)

    def wake(self, lock):
        for t in [t for t, l in self.blocked.items() if l is lock]:
            del self.blocked[t]
            self.runnable.append(t)
        self.runnable.sort()

    def _fail(self, why):
        """Ends the run: the threads stay parked for good, the caller of run() goes on."""
        if self.failure is None:
            self.failure = why
            # threads that the code started itself are not under control: it may be they that are waited for
            self.foreign = len(os.listdir("/proc/self/task")) > len(self.sem) + 1
            self.done.release()
        park = _real_lock()
        park.acquire()
        park.acquire()

    # -- tracing --------------------------------------------------------------
    def _scope(self, code):
        c = self.scope_cache.get(code)
        if c is None:
            f = code.co_filename
            c = 2 if any(f.startswith(x) for x in self.scope_line) else (
                1 if any(f.startswith(x) for x in self.scope_call) else 0)
            self.scope_cache[code] = c
        return c

    def tracer(self, frame, event, arg):
        c = self._scope(frame.f_code)
        if not c:
            return None
        self.point(frame=frame)
        if c == 2:
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.local
        return None

    def local(self, frame, event, arg):
        self.point(frame=frame)
        return self.local

    # -- running --------------------------------------------------------------
    def _body(self, t, fn):
        self.ident[_thread.get_ident()] = t
        self.sem[t].acquire()
        sys.settrace(self.tracer)
        try:
            fn()
        finally:
            sys.settrace(None)
            self.runnable.remove(t)
            self.alive -= 1
            if self.alive == 0:
                self.done.release()
            else:
                if not self.runnable:
                    self._fail("deadlock")
                self.n += 1
                to = self.exp.get(self.n) if self.mode == "explicit" else None
                if to not in self.runnable:
                    to = self.runnable[self.rng.randrange(len(self.runnable))] \
                        if self.mode != "explicit" else self.runnable[0]
                self.switches.append([self.n, to])
                self.parked.pop(to, None)
                self.cur = to
                self.sem[to].release()

    def run(self, fns, _=None):
        global CURRENT
        self.sem = [_real_lock() for _ in fns]
        for s in self.sem:
            s.acquire()
        self.runnable = list(range(len(fns)))
        self.alive = len(fns)
        CURRENT = self
        for t, fn in enumerate(fns):
            _thread.start_new_thread(self._body, (t, fn))
        first = self.exp.get(0, 0) if self.mode == "explicit" else self.rng.randrange(len(fns))
        self.switches.append([0, first])
        self.cur = first
        self.sem[first].release()
        self.done.acquire()
        CURRENT = None
        return self.switches
