"""Meshes of real communicators with every message recorded."""

from vp import sched

sched.install()

from vp import commcheck


class Proxy:
    """A communicator that records what its party transmits and receives."""

    def __init__(self, comm, on_send, on_recv=None):
        self.__dict__.update(_c=comm, _on_send=on_send, _on_recv=on_recv, sent=[], got=[])

    def __getattr__(self, a):
        return getattr(self._c, a)

    def __setattr__(self, a, v):
        setattr(self._c, a, v)

    def _s(self, to, key, data):
        self.sent.append((to, key))
        self._on_send(self._c.rank, to, key, data)

    def send(self, to, key, data, **kw):
        self._s(to, key, data)
        return self._c.send(to, key, data, **kw)

    def isend(self, to, key, data, **kw):
        self._s(to, key, data)
        return self._c.isend(to, key, data, **kw)

    def send_sync(self, to, key, data, **kw):
        self._s(to, key, data)
        return self._c.send_sync(to, key, data, **kw)

    def recv(self, frm, key, **kw):
        v = self._c.recv(frm, key, **kw)
        self.got.append((frm, key))
        if self._on_recv:
            self._on_recv(self._c.rank, frm, key, v)
        return v


def make(rng, kind, world, on_send, on_recv=None):
    if kind == "mem":
        comms = commcheck.make_mem(rng, world)
    else:
        comms, _ = commcheck.make_http(rng, world, None)
        commcheck._net.special = {}
        commcheck._net.script = {}
    return [Proxy(c, on_send, on_recv) for c in comms]


def leftovers(proxies):
    """Messages sent and never received."""
    out = []
    for p in proxies:
        for to, key in p.sent:
            if 0 <= to < len(proxies) and proxies[to].got.count((p.rank, key)) < p.sent.count((to, key)):
                out.append((p.rank, to, key))
    return out
