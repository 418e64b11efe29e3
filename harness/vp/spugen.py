"""Secure kernels of several devices on the same workers: real workers, requests in turn and at once, every engine message recorded."""
from vp import sched

sched.install()

import hashlib
import random
import threading
import time

from vp import commcheck, core, mesh

FNS = {"add": 2, "sub": 2, "neg": 1, "id": 1}


def devices(rng, world, one):
    """id -> (ranks as listed, settings); one: a worker has a single engine endpoint, so one link"""
    devs = {}
    for k in range(1 if one else rng.choice([2, 2, 3, 4])):
        n = rng.choice([2, 2, min(3, world), world])
        devs[f"S{k}"] = (rng.sample(range(world), n), rng.choice([("SEMI2K", "FM64"), ("SEMI2K", "FM64"), ("SEMI2K", "FM128"), ("CHEETAH", "FM64")]))
    if rng.random() < 0.3:
        devs["S9"] = (rng.sample(devs["S0"][0], len(devs["S0"][0])), devs["S0"][1])     # the same parties again
    return devs


def config(world, devs):
    c = {"nodes": [{"name": f"n{r}", "endpoint": f"e{r}"} for r in range(world)], "devices": {f"P{r}": {"kind": "PPU", "members": [f"n{r}"]} for r in range(world)}}
    for d, (rs, (p, f)) in devs.items():
        c["devices"][d] = {"kind": "SPU", "members": [f"n{r}" for r in rs], "config": {"protocol": p, "field": f}}
    return c


def program(rng, world, devs):
    """Operations as the specification sees them; all values are results."""
    ops, env = [], []
    blank = {"f": "", "args": [], "h": [], "auto": True}
    big = []
    for _ in range(rng.choice([3, 4, 6, 8])):
        z = rng.random()
        where = rng.choice([f"P{r}" for r in range(world)] + 3 * list(devs))
        if len(env) < 2 or z < 0.2:
            ops.append({**blank, "op": "put", "dev": where, "h": [rng.randrange(1 << 16, 1 << 18), rng.randrange(1 << 16, 1 << 18)]})
            env.append(where)
            big.append(1)
            continue
        here = [k for k, d in enumerate(env) if d[0] == "P" or d == where]
        if where[0] == "S" and here and z < 0.85:
            f = rng.choice(list(FNS))
            args = [rng.choice(here) for _ in range(FNS[f])]
            if sum(big[a] for a in args) > 200:
                f, args = "id", args[:1]
            ops.append({**blank, "op": "run", "dev": where, "f": f, "args": [a + 1 for a in args]})
            env.append(where)
            big.append(sum(big[a] for a in args))
        else:
            k = rng.randrange(len(env))
            to = where if env[k][0] == "P" or where[0] == "P" else f"P{rng.randrange(world)}"
            ops.append({**blank, "op": "move", "dev": to, "args": [k + 1]})
            env.append(to)
            big.append(big[k])
    return ops


def build(ops, interp):
    """The program as a graph."""
    import numpy as np

    import mplang
    from mplang.libs.device import device, put

    fns = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "id": lambda a: a, "neg": lambda a: -a}

    def prog():
        env = []
        for o in ops:
            if o["op"] == "put":
                env.append(put(o["dev"], np.array(o["h"], np.int32)))
            elif o["op"] == "move":
                env.append(put(o["dev"], env[o["args"][0] - 1]))
            else:
                env.append(device(o["dev"]).jax(fns[o["f"]])(*[env[a - 1] for a in o["args"]]))
        return tuple(env)
    return mplang.compile(prog, context=interp).graph


def kernels(graph):
    """Kernel operations in the order of the program."""
    out = []
    for op in graph.operations:
        if op.opcode == "spu.exec":
            out.append(op)
        for g in op.regions:
            out += kernels(g)
    return out


_execd = {}


def patch_stub():
    """The stand-in engine: one evaluation of a kernel for equal inputs is enough; tells its link."""
    import spu.api as api
    import spu.libspu.link as link

    if getattr(api, "_vp", None):
        return
    api._vp = True
    real = api._execute

    def execute(code, args):
        k = hashlib.sha256(code + b"".join(a.tobytes() for a in args)).digest()
        if k not in _execd:
            _execd[k] = real(code, args)
        return [a.copy() for a in _execd[k]]
    api._execute = execute
    run = api.Runtime.run

    def running(self, exe):
        cur = getattr(here, "cur", None)
        if cur is not None:
            cur["rec"]({"k": "link", "pos": self.link.rank, "n": self.link.world_size, "cfg": [self.config.protocol.name, self.config.field.name]})
        return run(self, exe)
    api.Runtime.run = running
    mc = link._MemChannel
    msend, mrecv = mc.Send, mc.Recv

    def send(self, tag, data):
        cur = getattr(here, "cur", None)
        if cur is not None:
            cur["rec"]({"k": "send", "peer": ep(self.space, self.peer), "key": f"{self.space}|{tag}", "m": dig(data)})
        return msend(self, tag, data)

    def recv(self, tag):
        v = mrecv(self, tag)
        cur = getattr(here, "cur", None)
        if cur is not None:
            cur["rec"]({"k": "recv", "peer": ep(self.space, self.peer), "key": f"{self.space}|{tag}", "m": dig(v)})
        return v
    mc.Send = mc.SendAsync = mc.SendAsyncThrottled = send
    mc.Recv = recv


def ep(space, i):
    """The worker behind a party of a link."""
    host = space[1][i][1]
    return int(host[2:]) if host.startswith("ep") else -1


def dig(b):
    return hashlib.sha256(bytes(b)).hexdigest()[:12]


class _Here:
    """The kernel the current thread executes."""

    def __init__(self):
        self.d = {}

    @property
    def cur(self):
        return self.d.get(threading.get_ident())

    def set(self, v):
        self.d[threading.get_ident()] = v


here = _Here()


class Story:
    def __init__(self, seed, mode=None):
        self.rng = rng = random.Random(seed)
        self.world = rng.choice([2, 3, 3, 4])
        self.mode = mode or rng.choice(["mem", "mem", "http", "http", "brpc"])
        self.devs = devices(rng, self.world, self.mode == "brpc")
        self.ev = []
        self.keys = {}

    def names(self, n):
        base = self.rng.choice(["job", "spu", "spu:", "a", "a:b", "1"])
        return [base] + [self.rng.choice([f"{base}{k}", f"{base}:{k}", f"{base}.{k}", f"x{k}"]) for k in range(1, n)]

    def handlers(self, rank, kids, comm):
        from mplang.backends.simp_worker import WORKER_HANDLERS
        from mplang.edsl.registry import get_impl

        impl = get_impl("spu.exec")

        def handler(interp, op, *args):
            c, kid = kids[id(op)]

            def rec(e):
                e = {"pos": -1, "n": -1, "cfg": [], "peer": -1, "m": "", "ps": [], "key": "", **e}
                self.ev.append({"c": c, "kid": kid, "r": rank, **e})
            st = interp.get_dialect_state("simp")
            rec({"k": "kernel", "ps": [int(p) for p in st.current_parties]})
            here.set({"rec": rec})
            try:
                return impl(interp, op, *args)
            finally:
                here.set(None)
        return {**WORKER_HANDLERS, "spu.exec": handler}

    def sent(self, frm, to, key, data):
        s = sched._current
        if s is None or s.aborting:
            raise sched.SchedAbort
        cur = here.cur
        if cur is not None:
            cur["rec"]({"k": "send", "peer": to, "key": key, "m": dig(data) if isinstance(data, bytes) else "?"})
        else:
            self.ev.append({"c": 0, "kid": 0, "r": frm, "k": "other", "pos": -1, "n": -1, "cfg": [], "peer": to, "key": key, "m": "", "ps": []})

    def got(self, rank, frm, key, v):
        cur = here.cur
        if cur is not None:
            cur["rec"]({"k": "recv", "peer": frm, "key": key, "m": dig(v) if isinstance(v, bytes) else "?"})

    def tell(self):
        import mplang.backends.channel  # noqa: F401
        import mplang.backends.spu_impl  # noqa: F401
        from mplang.backends.simp_worker import WorkerInfra, create_request_interpreter
        from mplang.dialects import simp
        from mplang.libs.device import ClusterSpec

        patch_stub()
        commcheck.patch_httpx()
        rng, world = self.rng, self.world
        import spu.libspu.link as link

        link._MEM.clear()
        spec = ClusterSpec.from_dict(config(world, self.devs))
        n = rng.choice([1, 2, 2, 3])
        progs = [program(rng, world, self.devs) for _ in range(n)]
        ctx = _builder(spec)
        graphs = [build(p, ctx) for p in progs]
        if rng.random() < 0.3 and n > 1:
            progs[1], graphs[1] = progs[0], build(progs[0], ctx)       # the same program at the same time
        names = self.names(n)
        kids = {}
        order = {}
        for c, g in enumerate(graphs, 1):
            ks = kernels(g)
            order[c] = ks
            kids.update({id(op): (c, j) for j, op in enumerate(ks, 1)})
        together = self.mode != "brpc" and rng.random() < 0.6
        phase = [0 if together else k for k in range(n)]
        proxies = mesh.make(rng, "http" if self.mode == "http" else "mem", world, self.sent, self.got)
        infras = [WorkerInfra(rank=r, world_size=world, communicator=proxies[r], store=None, handlers=self.handlers(r, kids, proxies[r]), executor=None,
                              spu_endpoints={q: f"ep{q}" for q in range(world)} if self.mode == "brpc" else None) for r in range(world)]
        results = {}

        def party(c, r):
            def run():
                sched.patient_sleep(phase[c - 1] * 100)
                interp = create_request_interpreter(infras[r], names[c - 1])
                try:
                    results[c, r] = ("ok", interp.evaluate_graph(graphs[c - 1], [], names[c - 1]))
                except Exception as e:
                    results[c, r] = ("error", repr(e)[:300])
                finally:
                    interp.shutdown()
            return run

        def closer():
            sched.patient_sleep(5000)
            sched._current.finish()
        strat = sched.RandomStrategy(rng, p=rng.choice([0.02, 0.1, 0.3])) if rng.random() < 0.6 else sched.PCTStrategy(rng, d=4, length=2000)
        s = sched.Scheduler(strat, trace_files=(core.MPLANG + "/backends/simp_worker", core.MPLANG + "/backends/spu_state.py", core.MPLANG + "/backends/channel.py"), max_steps=900000)
        recs = s.run([*(party(c, r) for c in range(1, n + 1) for r in range(world)), closer])
        errs = [repr(r.exc) for r in recs if r.exc is not None and not r.aborted]
        reqs = []
        for c in range(1, n + 1):
            rs = [results.get((c, r)) for r in range(world)]
            ok = not errs and all(x and x[0] == "ok" for x in rs)
            res = []
            if ok:
                for j in range(len(graphs[c - 1].outputs)):
                    res.append(self.outcome([x[1][j] for x in rs]))
            reqs.append({"ops": progs[c - 1], "ok": ok, "phase": phase[c - 1], "res": res, "kernels": len(order[c])})
        ids = [f"P{r}" for r in range(world)] + list(self.devs)
        # keys as numbers
        num = {}
        for e in self.ev:
            e["key"] = num.setdefault((e["r"], e["peer"], e["key"]) if e["k"] != "recv" else (e["peer"], e["r"], e["key"]), len(num) + 1)
        return {"world": world, "ids": ids, "kinds": ["PPU"] * world + ["SPU"] * len(self.devs), "members": [[r] for r in range(world)] + [rs for rs, _ in self.devs.values()],
                "cfgs": [[] for _ in range(world)] + [list(c) for _, c in self.devs.values()], "reqs": reqs, "ev": self.ev, "together": together,
                "why": f"{self.mode} {names} {s.outcome} {getattr(s, 'blocked_info', [])[:6]} {errs[:2]} {[str(v) for v in results.values() if v[0] != 'ok'][:3]}"}

    def outcome(self, held):
        """What the parties hold for a value: ranks, kind, value."""
        from spu.api import _open

        from vp.devgen import ints

        held = [(r, x) for r, x in enumerate(held) if x is not None]
        try:
            if held and all(type(x).__name__ == "SPUShareValue" for _, x in held):
                return {"ranks": [r for r, _ in held], "kind": "shares", "v": ints(_open([x.unwrap() for _, x in held]))}
            return {"ranks": [r for r, _ in held], "kind": "plain" if len(held) == 1 else "other", "v": ints(held[0][1])}
        except Exception:
            return {"ranks": [r for r, _ in held], "kind": "shares", "v": [-99]}


_ctx = {}


def _builder(spec):
    """A context in which programs over the cluster are traced."""
    from mplang.dialects import simp

    if "i" not in _ctx:
        _ctx["i"] = simp.make_simulator(1)
    _ctx["i"]._cluster_spec = spec
    return _ctx["i"]
