"""Real worker servers on the loopback network, and a driver connected to them."""

from __future__ import annotations

from vp import sched

sched.install()

import os
import shutil
import socket
import tempfile
import threading
import time

from vp import mesh, simpgen, simprun


def free_sockets(n):
    out = []
    for _ in range(n):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(("127.0.0.1", 0))
        s.listen(128)
        out.append(s)
    return out


class Server:
    """One uvicorn server in a thread, on an already listening socket."""

    def __init__(self, app, sock):
        import logging

        import uvicorn

        logging.getLogger("uvicorn.error").setLevel(logging.CRITICAL)
        self.sock = sock
        self.srv = uvicorn.Server(uvicorn.Config(app, log_level="critical", lifespan="on", timeout_graceful_shutdown=1))
        self.t = threading.Thread(target=self._run, daemon=True)
        self.t.start()
        end = time.monotonic() + 20
        while not self.srv.started:
            if time.monotonic() > end:
                raise RuntimeError("worker server did not start")
            time.sleep(0.002)

    def _run(self):
        self.srv.run(sockets=[self.sock])

    def stop(self):
        self.srv.should_exit = True
        self.t.join(3)
        self.sock.close()


class HttpSim:
    """The interface of simprun.Sim over real HTTP workers."""

    def __init__(self, world, fail=None, recv_timeout=3.0, faults=None, use_binary=None):
        import logging

        from mplang.backends.simp_worker import http, ops
        from mplang.runtime.object_store import FileSystemBackend, ObjectStore

        logging.disable(logging.CRITICAL)
        self.dir = tempfile.mkdtemp(prefix="vp-http-")
        self.env = os.environ.get("MPLANG_DATA_ROOT")
        os.environ["MPLANG_DATA_ROOT"] = self.dir
        self.w = simprun.Wires()
        self.log, self.lock = [], threading.Lock()
        self.world = world
        self.proxies = []
        socks = free_sockets(world)
        self.endpoints = [f"http://127.0.0.1:{s.getsockname()[1]}" for s in socks]
        orig = http.HttpCommunicator
        wrap = faults.wrap if faults else (lambda c: mesh.Proxy(c, self.w))
        if faults:
            faults.wires, fail = self.w, faults.op

        def make(rank, world_size, endpoints, tracer=None, config=None):
            cfg = http.CommConfig(default_recv_timeout=recv_timeout, http_timeout=20.0)
            if use_binary is not None:
                cfg.use_binary = use_binary
            p = wrap(orig(rank, world_size, endpoints, tracer=tracer, config=cfg))
            self.proxies.append(p)
            return p

        old = ops.WORKER_HANDLERS.get("vpt.op")
        ops.WORKER_HANDLERS["vpt.op"] = simpgen.handler(self.note, fail)
        http.HttpCommunicator = make
        try:
            self.stores = [ObjectStore(persistent=FileSystemBackend(root_path=f"{self.dir}/node{r}")) for r in range(world)]
            self.apps = [http.create_worker_app(r, world, self.endpoints, store=faults.wrap_store(self.stores[r], r) if faults else self.stores[r]) for r in range(world)]
        finally:
            http.HttpCommunicator = orig
            if old is None:
                del ops.WORKER_HANDLERS["vpt.op"]
            else:
                ops.WORKER_HANDLERS["vpt.op"] = old
        self.servers = [Server(a, s) for a, s in zip(self.apps, socks)]
        self.new_driver()

    def new_driver(self):
        from mplang.dialects import simp

        self.interp = simp.make_driver(self.endpoints)
        self.state = self.interp.get_dialect_state("simp")
        return self.interp

    def note(self, rank, uid):
        with self.lock:
            self.log.append([rank, uid])

    def inputs(self, m, case):
        from mplang.backends.simp_driver.values import DriverVar
        from mplang.runtime.interpreter import InterpObject

        return [InterpObject(DriverVar([self.stores[r].put(v) if v != -1 else None for r, v in enumerate(i["vals"])]), m.mptype(i), self.interp)
                for i in case["inputs"]]

    def close(self):
        try:
            self.state.shutdown()
            for s in self.servers:
                s.srv.should_exit = True
            for s in self.servers:
                s.stop()
        finally:
            if self.env is not None:
                os.environ["MPLANG_DATA_ROOT"] = self.env
            shutil.rmtree(self.dir, ignore_errors=True)
