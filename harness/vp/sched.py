"""Controlled cooperative scheduler for real Python threads.

``install()`` must run before the code under test (and ``concurrent.futures``)
is imported.  It replaces the Python-level synchronisation primitives by
cooperative ones, which behave like the real ones outside a run, and inside
``Scheduler.run`` let exactly one managed thread run at a time.  At every
synchronisation operation, and (if tracing is on) at every source line of the
traced files, the strategy decides which thread goes on.  Time is virtual.

Because only one managed thread runs at a time, the order in which events are
appended to a log is their real-time order.
"""

from __future__ import annotations

import _thread
import random
import sys
import threading
import time
import traceback

_real_allocate = _thread.allocate_lock
_real_get_ident = _thread.get_ident
_real_monotonic = time.monotonic
_real_time = time.time
_real_perf = time.perf_counter
_real_sleep = time.sleep
_start_new_thread = _thread.start_new_thread

_current: "Scheduler | None" = None
_tls = threading.local()


class SchedAbort(BaseException):
    """Raised inside managed threads to unwind them when a run is over."""


class Deadlock(Exception):
    pass


class _T:
    __slots__ = (
        "baton", "blocked_on", "deadline", "exc", "finished", "fired", "id", "ident",
        "name", "prio", "sched", "obj", "result", "daemonic", "patient", "aborted",
    )

    def __init__(self, sched, id_, name):
        self.sched = sched
        self.id = id_
        self.name = name
        self.baton = _real_allocate()
        self.baton.acquire()
        self.blocked_on = None
        self.deadline = None
        self.fired = False
        self.finished = False
        self.exc = None
        self.prio = 0
        self.obj = None
        self.ident = None
        self.result = None
        self.daemonic = False
        self.patient = False
        self.aborted = False


def _me():
    t = getattr(_tls, "t", None)
    if t is not None and t.sched is _current:
        return t
    return None


# ---------------------------------------------------------------- primitives


class CoopLock:
    """Replacement for threading.Lock."""

    def __init__(self):
        self._l = _real_allocate()

    def acquire(self, blocking=True, timeout=-1):
        t = _me()
        if t is None:
            return self._l.acquire(blocking, timeout)
        s = t.sched
        s.point(t)
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else s.now + timeout
        while True:
            if not s.block(t, self, deadline):
                return bool(self._l.acquire(False))
            if self._l.acquire(False):
                return True

    def release(self):
        self._l.release()
        s = _current
        if s is not None:
            s.wake(self)
            t = _me()
            if t is not None:
                s.point(t)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _real_allocate()


class CoopRLock:
    """Replacement for threading.RLock."""

    def __init__(self):
        self._block = CoopLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _real_get_ident()
        if self._owner == me:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    def release(self):
        if self._owner != _real_get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        if self._count == 0:
            raise RuntimeError("cannot release un-acquired lock")
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return state

    def _is_owned(self):
        return self._owner == _real_get_ident()

    def _at_fork_reinit(self):
        self._block = CoopLock()
        self._owner = None
        self._count = 0


_installed = False
_orig_start = threading.Thread.start
_orig_join = threading.Thread.join
_orig_is_alive = threading.Thread.is_alive


def _start(self):
    t = _me()
    if t is None:
        return _orig_start(self)
    s = t.sched
    rec = s.add(self.name)
    rec.obj = self
    rec.daemonic = True
    self._vp_rec = rec

    def body():
        self._set_ident()
        self._started.set()
        with threading._active_limbo_lock:
            threading._active[self._ident] = self
        try:
            self.run()
        finally:
            self._is_stopped = True
            threading._active.pop(self._ident, None)

    s.launch(rec, body)
    s.point(t)


def _join(self, timeout=None):
    rec = getattr(self, "_vp_rec", None)
    t = _me()
    if rec is None:
        return _orig_join(self, timeout)
    if t is None:
        return None
    s = t.sched
    deadline = None if timeout is None else s.now + timeout
    while not rec.finished:
        if not s.block(t, rec, deadline):
            return None
    return None


def _is_alive(self):
    rec = getattr(self, "_vp_rec", None)
    if rec is None:
        return _orig_is_alive(self)
    return not rec.finished


def _monotonic():
    t = _me()
    return t.sched.tick() if t is not None else _real_monotonic()


def _time_time():
    t = _me()
    return 1.7e9 + t.sched.tick() if t is not None else _real_time()


def _perf():
    t = _me()
    return t.sched.tick() if t is not None else _real_perf()


def _sleep(d):
    t = _me()
    if t is None:
        return _real_sleep(d)
    s = t.sched
    s.block(t, object(), s.now + max(0.0, d))


def install():
    """Replace primitives. Call before importing the code under test."""
    global _installed
    if _installed:
        return
    _installed = True
    import queue

    threading.Lock = CoopLock
    threading._allocate_lock = CoopLock
    threading.RLock = CoopRLock
    threading._RLock = CoopRLock
    threading._CRLock = None
    threading.Thread.start = _start
    threading.Thread.join = _join
    threading.Thread.is_alive = _is_alive
    queue.SimpleQueue = queue._PySimpleQueue
    time.monotonic = _monotonic
    time.time = _time_time
    time.perf_counter = _perf
    time.sleep = _sleep
    threading._time = _monotonic
    queue.time = _monotonic
    import logging

    import concurrent.futures.thread as cft

    logging.getLogger("concurrent.futures").disabled = True

    if hasattr(cft, "_global_shutdown_lock"):
        cft._global_shutdown_lock = CoopLock()


# ------------------------------------------------------------------ strategy


class RandomStrategy:
    """At each point switch with probability ``p`` (uniform choice)."""

    def __init__(self, rng: random.Random, p=0.15, pt=0.0):
        self.rng, self.p, self.pt = rng, p, pt
        self.fires = 25

    def pick(self, sched, cur, runnable, timed):
        if timed and self.pt and self.fires > 0 and self.rng.random() < self.pt:
            self.fires -= 1
            return ("fire", self.rng.choice(timed))
        if cur in runnable and self.rng.random() >= self.p:
            return ("run", cur)
        return ("run", self.rng.choice(runnable))


class PCTStrategy:
    """Probabilistic concurrency testing: priorities with d change points."""

    def __init__(self, rng, d=3, length=400, pt=0.0):
        self.rng = rng
        self.change = {rng.randrange(1, length) for _ in range(d)}
        self.pt = pt
        self.n = 0
        self.low = 0
        self.fires = 25

    def pick(self, sched, cur, runnable, timed):
        if timed and self.pt and self.fires > 0 and self.rng.random() < self.pt:
            self.fires -= 1
            return ("fire", self.rng.choice(timed))
        self.n += 1
        if self.n > 20 * 400:  # fairness: no strategy may starve a thread
            return ("run", self.rng.choice(runnable))
        for t in runnable:
            if t.prio == 0:
                t.prio = 1.0 + self.rng.random()
        if self.n in self.change:
            self.low -= 1
            best = max(runnable, key=lambda t: t.prio)
            best.prio = self.low
        return ("run", max(runnable, key=lambda t: t.prio))


class ReplayStrategy:
    """DFS driver: follows a prefix of choices, then non-preemptive default."""

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.taken = []  # (choice index, number of options, is_preemption list)

    def pick(self, sched, cur, runnable, timed):
        opts = [cur] + [t for t in runnable if t is not cur] if cur in runnable else list(runnable)
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= len(opts):
            c = 0
        self.taken.append((c, len(opts), cur in runnable))
        return ("run", opts[c])


# ----------------------------------------------------------------- scheduler


class Scheduler:
    def __init__(self, strategy, *, trace_files=(), max_steps=60000, opcodes=False, real_limit=60.0):
        self.strategy = strategy
        self.trace_prefixes = tuple(trace_files)
        self.opcodes = opcodes
        self.threads: list[_T] = []
        self.now = 1000.0
        self.steps = 0
        self.max_steps = max_steps
        self.aborting = False
        self.outcome = None  # 'ok' | 'deadlock' | 'livelock'
        self.blocked_info = []
        self.done = _real_allocate()
        self.done.acquire()
        self.cur = None
        self.real_limit = real_limit
        self.no_preempt = 0
        self.early = 0

    # -- time
    def tick(self):
        # Virtual time moves only when a deadline fires; a tiny increment keeps
        # busy loops on the clock from spinning for ever.
        self.now += 1e-7
        return self.now

    # -- threads
    def add(self, name):
        t = _T(self, len(self.threads), name)
        self.threads.append(t)
        return t

    def launch(self, rec, fn):
        def boot():
            rec.baton.acquire()
            rec.ident = _real_get_ident()
            _tls.t = rec
            if self.trace_prefixes:
                sys.settrace(self._trace)
            try:
                if not self.aborting:
                    rec.result = fn()
            except SchedAbort:
                pass
            except BaseException as e:
                rec.exc = e
                rec.aborted = self.aborting
            finally:
                sys.settrace(None)
                rec.finished = True
                _tls.t = None
                self.wake(rec)
                self._leave(rec)

        _start_new_thread(boot, ())

    def spawn(self, fn, name=None):
        rec = self.add(name or f"t{len(self.threads)}")
        self.launch(rec, fn)
        return rec

    # -- tracing
    def _trace(self, frame, event, arg):
        co = frame.f_code
        if co.co_name == "<module>" or not co.co_filename.startswith(self.trace_prefixes):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._trace_local

    def _trace_local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            t = _me()
            if t is not None:
                self.point(t)
        return self._trace_local

    # -- core
    def point(self, t):
        if self.aborting:
            # let the thread unwind; raise only where it may block
            return
        if self.no_preempt:
            return
        self._switch(t, True)

    def block(self, t, on, deadline):
        """Block until woken (True) or the deadline fired (False)."""
        if self.aborting:
            raise SchedAbort()
        t.blocked_on = on
        t.deadline = deadline
        t.fired = False
        self._switch(t, False)
        return not t.fired

    def wake(self, on):
        for t in self.threads:
            if t.blocked_on is on:
                t.blocked_on = None
                t.deadline = None

    def _runnable(self):
        return [t for t in self.threads if not t.finished and t.blocked_on is None]

    def _next(self, cur):
        """Choose the next thread, or None when the run is over."""
        self.steps += 1
        if self.steps > self.max_steps and not self.aborting:
            self.outcome = "livelock"
            self._begin_abort()
        while True:
            runnable = self._runnable()
            if self.aborting:
                if runnable:
                    return runnable[0]
                for t in self.threads:
                    if not t.finished:
                        t.blocked_on = None
                        return t
                return None
            timed = [t for t in self.threads if not t.finished and t.blocked_on is not None and t.deadline is not None]
            if not runnable:
                if timed and any(not t.finished for t in self.threads):
                    d = min(t.deadline for t in timed)
                    cands = [t for t in timed if t.deadline <= d]
                    self._fire(cands[0])
                    continue
                live = [t for t in self.threads if not t.finished]
                if not live:
                    return None
                # every remaining thread is blocked for ever
                if all(t.daemonic for t in live):
                    self._begin_abort()  # idle pool threads
                    continue
                self.outcome = "deadlock"
                self.blocked_info = [(t.name, self._where(t)) for t in live]
                self._begin_abort()
                continue
            kind, t = self.strategy.pick(self, cur, runnable, [x for x in timed if not x.patient])
            if kind == "fire":
                self._fire(t, early=True)
                continue
            return t

    def _fire(self, t, early=False):
        self.now = max(self.now, t.deadline)
        self.early += early
        for u in self.threads:
            if u.blocked_on is not None and u.deadline is not None and u.deadline <= self.now and not (early and u.patient):
                u.blocked_on = None
                u.deadline = None
                u.fired = True

    def finish(self):
        """End the run now: every other managed thread is unwound."""
        self._begin_abort()

    def _begin_abort(self):
        self.aborting = True

    def _where(self, t):
        f = sys._current_frames().get(t.ident)
        if f is None:
            return []
        return [f"{'/'.join(fr.filename.rsplit('/', 2)[-2:])}:{fr.name}" for fr in traceback.extract_stack(f) if "/vp/sched" not in fr.filename and "threading.py" not in fr.filename][-4:]

    def _switch(self, t, alive):
        n = self._next(t)
        if n is t:
            if self.aborting and not alive:
                raise SchedAbort()
            return
        if n is None:
            # only possible if everyone else is finished and t is blocked
            self.done.release()
            t.baton.acquire()
        else:
            n.baton.release()
            t.baton.acquire()
        if self.aborting and not alive:
            raise SchedAbort()

    def _leave(self, t):
        n = self._next(t)
        if n is None:
            self.done.release()
        else:
            n.baton.release()

    def run(self, fns, names=None):
        """Run the given callables as managed threads until quiescence."""
        global _current
        assert _current is None
        _current = self
        recs = [self.spawn(f, names[i] if names else f"t{i}") for i, f in enumerate(fns)]
        try:
            first = self._next(None)
            first.baton.release()
            if not self.done.acquire(True, self.real_limit):
                self.outcome = "stuck"
                self.blocked_info = [(t.name, self._where(t)) for t in self.threads if not t.finished]
        finally:
            _current = None
        if self.outcome is None:
            self.outcome = "ok"
        return recs


def explore(make, *, bound=2, max_runs=2000, sync_only=True, trace_files=(), **kw):
    """Systematic exploration with a bound on preemptions.

    ``make()`` returns (fns, names, on_done); yields (schedule, scheduler, recs).
    """
    stack = [[]]
    runs = 0
    while stack and runs < max_runs:
        prefix = stack.pop()
        fns, names, finish = make()
        strat = ReplayStrategy(prefix)
        s = Scheduler(strat, trace_files=() if sync_only else trace_files, **kw)
        recs = s.run(fns, names)
        runs += 1
        finish(s, recs)
        pre = 0
        for i, (c, n, cur_runnable) in enumerate(strat.taken):
            if i >= len(prefix):
                for alt in range(1, n):
                    if pre + (1 if cur_runnable else 0) <= bound:
                        stack.append([x[0] for x in strat.taken[:i]] + [alt])
            if c != 0 and cur_runnable:
                pre += 1
    return runs, not stack


def patient_sleep(d):
    """Sleep that is never cut short by an early firing of deadlines."""
    t = _me()
    t.patient = True
    while True:
        e = t.sched.early
        _sleep(d)
        if t.sched.early == e:
            break
    t.patient = False
