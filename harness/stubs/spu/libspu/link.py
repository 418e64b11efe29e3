from __future__ import annotations

import threading


class IChannel:
    def __init__(self):
        pass


class Desc:
    def __init__(self):
        self.id = "root"
        self.parties: list[tuple[str, str]] = []
        self.recv_timeout_ms = 30000

    def add_party(self, pid, host):
        self.parties.append((pid, host))


_MEM: dict = {}
_COND = threading.Condition()


class _MemChannel(IChannel):
    def __init__(self, space, me, peer, timeout):
        self.space, self.me, self.peer, self.timeout = space, me, peer, timeout

    def Send(self, tag, data):
        with _COND:
            _MEM[(self.space, self.me, self.peer, tag)] = bytes(data)
            _COND.notify_all()

    SendAsync = SendAsyncThrottled = Send

    def Recv(self, tag):
        k = (self.space, self.peer, self.me, tag)
        with _COND:
            if not _COND.wait_for(lambda: k in _MEM, self.timeout):
                raise RuntimeError(f"stub link: recv timeout {k}")
            return _MEM.pop(k)


class Context:
    def __init__(self, desc, rank, channels, cid):
        self.desc, self.rank, self.channels, self.id = desc, rank, channels, cid
        self.world_size = len(desc.parties)
        self._children = 0
        self._sent = [0] * self.world_size
        self._rcvd = [0] * self.world_size

    def spawn(self, cid=""):
        n = self._children
        self._children += 1
        return Context(self.desc, self.rank, self.channels, cid or f"{self.id}-{n}")

    def send(self, dst, data):
        tag = f"{self.id}:P2P-{self._sent[dst]}:{self.rank}->{dst}"
        self._sent[dst] += 1
        self.channels[dst].SendAsync(tag, data)

    def recv(self, src):
        tag = f"{self.id}:P2P-{self._rcvd[src]}:{src}->{self.rank}"
        self._rcvd[src] += 1
        return self.channels[src].Recv(tag)


def create_mem(desc, rank):
    space = (desc.id, tuple(desc.parties))
    ch = [
        None if i == rank else _MemChannel(space, rank, i, desc.recv_timeout_ms / 1000)
        for i in range(len(desc.parties))
    ]
    return Context(desc, rank, ch, desc.id)


def create_with_channels(desc, rank, channels):
    return Context(desc, rank, list(channels), desc.id)


def create_brpc(desc, rank):
    return create_mem(desc, rank)
