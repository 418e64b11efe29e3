"""Failure injection into a cluster, with a record of what every party does."""

from __future__ import annotations

from vp import sched

sched.install()

import threading
import time

from vp import mesh


class Boom(Exception):
    pass


EXCS = [RuntimeError("boom"), ValueError("boom"), KeyError("boom"), TimeoutError("boom"), Boom("boom"), OSError("boom"), AssertionError("boom"),
        IndexError("boom"), TypeError("boom"), ConnectionError("boom"), Boom(), RecursionError("boom"), NotImplementedError("boom"), EOFError()]


class Faults:
    """plan: list of (kind, rank, n); kinds: op (n: uid), send | put | get | recv (n: how many succeed before)."""

    def __init__(self, rng, plan, slow=()):
        self.rng, self.plan, self.slow = rng, plan, dict(slow)
        self.exc = rng.choice(EXCS)
        self.ev, self.lock = [], threading.Lock()
        self.counts, self.waiting, self.active = {}, 0, 0
        self.armed = False
        self.hit = []
        self.wires = None

    def event(self, e, p, v=0):
        with self.lock:
            self.ev.append({"e": e, "p": p, "v": v})

    def op(self, rank, uid):
        """Called by the implementation of the harness operation."""
        with self.lock:
            self.active += 1
        try:
            if (rank, uid) in self.slow:
                time.sleep(self.slow[rank, uid])
            bad = any(k == "op" and r == rank and n == uid for k, r, n in self.plan)
            if bad:
                self.hit.append(["op", rank, uid])
                self.event("fail", rank)
                raise self.exc
            self.event("op", rank)
        finally:
            with self.lock:
                self.active -= 1

    def tick(self, kind, rank):
        if not self.armed:
            return
        with self.lock:
            n = self.counts.get((kind, rank), 0)
            self.counts[kind, rank] = n + 1
        if (kind, rank, n) in self.plan:
            self.hit.append([kind, rank, n])
            self.event("fail", rank)
            raise self.exc

    def wrap(self, comm):
        return Comm(comm, self)

    def wrap_store(self, store, rank):
        return Store(store, self, rank)

    def quiet(self, limit):
        """Wait until nobody moves; how many parties are waiting for a message then?"""
        end = time.monotonic() + limit
        since = None
        while time.monotonic() < end:
            with self.lock:
                idle = self.waiting == 0 and self.active == 0
            now = time.monotonic()
            if not idle:
                since = None
            elif since is None:
                since = now
            elif now - since > 0.25:
                return 0
            time.sleep(0.01)
        return self.waiting


class Comm(mesh.Proxy):
    def __init__(self, comm, faults):
        super().__init__(comm, lambda *a: faults.wires(*a) if faults.wires else None)
        self.__dict__["_f"] = faults

    def _s(self, to, key, data):
        self._f.tick("send", self._c.rank)
        super()._s(to, key, data)

    def recv(self, frm, key, **kw):
        f, rank = self._f, self._c.rank
        f.tick("recv", rank)
        if not f.armed:
            return super().recv(frm, key, **kw)
        with f.lock:
            f.waiting += 1
            f.ev.append({"e": "wait", "p": rank, "v": 0})
        try:
            v = super().recv(frm, key, **kw)
        except BaseException:
            with f.lock:
                f.waiting -= 1
                f.ev.append({"e": "broke", "p": rank, "v": 0})
            raise
        with f.lock:
            f.waiting -= 1
            f.ev.append({"e": "got", "p": rank, "v": 0})
        return v


class Store:
    def __init__(self, store, faults, rank):
        self._s, self._f, self._r = store, faults, rank

    def __getattr__(self, a):
        return getattr(self._s, a)

    def get(self, *a, **kw):
        self._f.tick("get", self._r)
        return self._s.get(*a, **kw)

    def put(self, *a, **kw):
        self._f.tick("put", self._r)
        return self._s.put(*a, **kw)
