"""Random clusters and programs over devices, run on the real in-process cluster; everything that happens is recorded."""
import base64
import gc
import hashlib
import json
import os
import random
import shutil
import tempfile
import threading
import warnings

from vp import mesh

KINDS = {"PPU": ["PPU", "ppu", "Ppu"], "SPU": ["SPU", "spu"], "TEE": ["TEE", "tee", "Tee"]}
FNS = {"add": 2, "sub": 2, "id": 1, "neg": 1, "two": 2, "add3": 3}


def cluster(rng, tee=True, spu=True):
    """(config dictionary, devices: id -> (kind, ranks as written))"""
    n = rng.choice([2, 3, 3, 4, 4, 5])
    names = rng.sample(["n0", "n1", "a", "b", "node 3", "é", "P0", "SP0", "x.y", "0"], n)
    devs = {}
    ids = iter(rng.sample(["P0", "P1", "P2", "SP0", "SP1", "T", "alice", "bob", "a", "n0", "tee:0", "p0", "sp0", "x y"], 12))
    for r in range(n):
        if rng.random() < 0.65:
            devs[next(ids)] = ("PPU", [r])
    if rng.random() < 0.2:
        devs[next(ids)] = ("PPU", [rng.randrange(n)])
    for _ in range(rng.choice([0, 1, 1, 2, 2]) if spu else 0):
        devs[next(ids)] = ("SPU", rng.sample(range(n), rng.choice([2, 2, min(3, n)])))
    for _ in range(rng.choice([0, 1, 1, 2]) if tee else 0):
        devs[next(ids)] = ("TEE", [rng.randrange(n)])
    if not devs:
        devs[next(ids)] = ("PPU", [0])
    items = list(devs.items())
    rng.shuffle(items)
    devs = dict(items)
    cfg = {"nodes": [{"name": x, "endpoint": f"localhost:{i}"} for i, x in enumerate(names)], "devices": {}}
    for d, (k, rs) in devs.items():
        c = {"kind": rng.choice(KINDS[k]), "members": [names[r] for r in rs]}
        if k == "SPU":
            c["config"] = {"protocol": rng.choice(["SEMI2K", "ABY3" if len(rs) == 3 else "CHEETAH"]), "field": rng.choice(["FM64", "FM128"])}
        cfg["devices"][d] = c
    return cfg, devs


class Ids:
    def __init__(self):
        self.t, self.lock = {}, threading.Lock()

    def __call__(self, b):
        with self.lock:
            return self.t.setdefault(bytes(b), len(self.t) + 1)


def ints(v):
    import numpy as np

    a = np.asarray(v.unwrap() if hasattr(v, "unwrap") else v)
    return [int(x) for x in a.reshape(-1)] if a.dtype.kind in "iu" and a.size < 10 else [-99]


class Run:
    """One case: a cluster, and programs executed on it one after another."""

    def __init__(self, seed, tee=True, infer=0.4, typed=False):
        import mplang.backends.spu_impl  # noqa: F401
        import mplang.backends.tee_impl  # noqa: F401
        from mplang.dialects import simp
        from mplang.libs.device import ClusterSpec

        warnings.simplefilter("ignore")
        self.rng = rng = random.Random(seed)
        self.infer, self.typed = infer, typed
        self.cfg, self.devs = cluster(rng, tee, not typed)
        self.dir = tempfile.mkdtemp(prefix="vp-dev-")
        os.environ["MPLANG_DATA_ROOT"] = self.dir
        self.spec = ClusterSpec.from_dict(self.cfg)
        self.world = len(self.cfg["nodes"])
        self.id, self.lock, self.ev = Ids(), threading.Lock(), []
        self.plain, self.raw = set(), []
        self.interp = simp.make_simulator(self.world, cluster_spec=self.spec)
        self.state = self.interp.get_dialect_state("simp")
        for infra in self.state.infras:
            infra.communicator = mesh.Proxy(infra.communicator, self.sent)
            infra.handlers = {**infra.handlers, **self.handlers(infra.rank)}
        self.stores = [x.store for x in self.state.infras]
        self.groups, self.c = [], 0
        self.env = []                                    # eager values: objects

    def ints(self, v):
        """A value as the specification sees it: two integers, or (typed) a number for its content, twice."""
        import numpy as np

        if not self.typed:
            return ints(v)
        a = np.asarray(v.unwrap() if hasattr(v, "unwrap") else v)
        k = self.id(f"value {a.dtype} {a.shape} ".encode() + a.tobytes())
        return [k, k]

    def emit(self, **e):
        with self.lock:
            self.ev.append({"to": -1, "i": [], "o": [], "v": [], **e})

    # -- what is looked at
    def handlers(self, rank):
        from mplang.edsl.registry import get_impl

        kb = lambda x: self.id(getattr(x, "key_bytes", None) or getattr(x, "bound_pk", None) or x.unwrap())

        def wrap(opcode, note):
            impl = get_impl(opcode)

            def handler(interpreter, op, *args):
                out = impl(interpreter, op, *args)
                note(args, out)
                return out
            return {opcode: handler}
        h = {}
        e = self.emit
        h |= wrap("crypto.kem_keygen", lambda a, o: e(k="op", r=rank, op="keygen", o=[kb(o[0]), kb(o[1])]))
        h |= wrap("tee.quote_gen", lambda a, o: e(k="op", r=rank, op="quote", i=[kb(a[0])], o=[self.quote(o)]))
        h |= wrap("tee.attest", lambda a, o: e(k="op", r=rank, op="attest", i=[self.quote(a[0])], o=[kb(o)]))
        h |= wrap("crypto.kem_derive", lambda a, o: e(k="op", r=rank, op="derive", i=[kb(a[0]), kb(a[1])], o=[kb(o)]))
        h |= wrap("crypto.hkdf", lambda a, o: e(k="op", r=rank, op="hkdf", i=[kb(a[0])], o=[kb(o)]))
        h |= wrap("crypto.sym_encrypt", lambda a, o: e(k="op", r=rank, op="encrypt", i=[kb(a[0])], o=[self.id(o.unwrap()), self.id(b"nonce" + o.unwrap()[:12])], v=self.ints(a[1])))
        h |= wrap("crypto.sym_decrypt", lambda a, o: e(k="op", r=rank, op="decrypt", i=[kb(a[0]), self.id(a[1].unwrap())], v=self.ints(o)))
        h |= wrap("tensor.run_jax", lambda a, o: e(k="exec", r=rank, op="run"))
        h |= wrap("spu.exec", lambda a, o: e(k="exec", r=rank, op="kernel"))
        return h

    def quote(self, q):
        return self.id(b"quote" + json.dumps(q.to_json(), sort_keys=True).encode())

    def sent(self, frm, to, key, data):
        kind = type(data).__name__
        i, v = [], []
        if kind == "TensorValue":
            op, v = "clear", self.ints(data)
        elif kind == "SPUShareValue":
            m = json.loads(bytes(data.unwrap().meta))
            op, i = "share", [m["idx"], m["n"]]
            if m["vis"] != "VIS_SECRET" or self.readable(b"".join(bytes(c) for c in data.unwrap().share_chunks)):
                op = "clear"
        elif kind == "MockQuoteValue":
            op, i = "quote", [self.quote(data)]
        elif kind == "PublicKeyValue":
            op, i = "pk", [self.id(data.key_bytes)]
        elif kind == "BytesValue":
            op, i = "cipher", [self.id(data.unwrap())]
            if self.readable(data.unwrap()):
                op = "clear"
        elif isinstance(data, bytes):
            op = "engine"
        else:
            op = "other"
        self.emit(k="msg", r=frm, to=to, op=op, i=i, v=v)

    def readable(self, raw):
        import numpy as np

        if any(len(x) >= 6 and len(set(x)) > 3 and (x in raw or base64.b64encode(x)[:8] in raw) for x in self.raw):
            return True
        for v in list(self.plain):
            b = np.array(v, np.int32).tobytes()
            if any(x in raw for x in (b[:4], b[4:8], str(v[0]).encode(), str(v[1]).encode(), base64.b64encode(b)[:8])):
                return True
        return False

    # -- programs
    def host(self):
        import numpy as np

        if self.typed:
            rng = np.random.default_rng(self.rng.randrange(1 << 30))
            dt = self.rng.choice(["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "bool"])
            shape = self.rng.choice([(), (1,), (3,), (2, 3), (4, 1, 2), (17,)])
            a = rng.integers(0, 256, size=(*shape, np.dtype(dt).itemsize), dtype=np.uint8)
            x = (a[..., 0] % 2 == 1) if dt == "bool" else np.ascontiguousarray(a).view(dt).reshape(shape)
            if dt.startswith("float"):
                x = np.where(np.isfinite(x), x, self.rng.choice([np.inf, -np.inf, 0.0, -0.0])).astype(dt)
            x = np.asarray(x)
            self.raw.append(x.tobytes())
            return x, self.ints(x)
        v = [self.rng.randrange(1 << 16, 1 << 18), self.rng.randrange(1 << 16, 1 << 18)]
        self.seen(v)
        return np.array(v, np.int32), v

    def seen(self, v):
        if len(v) == 2 and min(abs(x) for x in v) >= 1 << 16:      # small values occur anywhere by chance
            self.plain.add(tuple(v))

    def fn(self, name):
        return {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "id": lambda a: a, "neg": lambda a: -a,
                "two": lambda a, b: (a + b, a - b), "add3": lambda a, b, c: a + b + c}[name]

    def value(self, obj, rec):
        """What the parties hold for a value."""
        from spu.api import _open

        dv = obj.runtime_obj
        rec["ranks"] = [r for r, u in enumerate(dv.values) if u is not None]
        held = [self.stores[r].get(u) for r, u in enumerate(dv.values) if u is not None]
        try:
            if all(type(x).__name__ == "SPUShareValue" for x in held):
                rec["kind"] = "shares"
                rec["v"] = self.ints(_open([x.unwrap() for x in held]))
            else:
                rec["kind"] = "plain" if len(held) == 1 else "other"
                rec["v"] = self.ints(held[0])
        except RuntimeError:
            rec["v"] = [-99]

    def op(self, env, eager):
        """One random operation; returns its record and the new values."""
        import mplang.libs.device.api as api
        from mplang.dialects.tensor import jax_fn
        from mplang.libs.device import device, put

        rng = self.rng
        ids = list(self.devs)
        dev = rng.choice(ids) if rng.random() < 0.97 else rng.choice(["nowhere", "", "P9"])
        z = rng.random()
        big = 1 << 18
        rec = {"op": "", "dev": dev, "f": "", "args": [], "h": [], "auto": True, "out": "ok", "res": []}
        new, auto = [], True
        try:
            if not env or z < (0.4 if self.typed else 0.25):
                rec["op"] = "put"
                x, rec["h"] = self.host()
                if dev == "":
                    rec["dev"] = dev = "nowhere"
                new = [put(dev, x)]
            elif self.typed or z < 0.6:
                rec["op"] = "move"
                if dev == "":
                    rec["dev"] = dev = "nowhere"
                k = rng.randrange(len(env))
                rec["args"] = [k + 1]
                big = env[k]._vp_big
                new = [put(dev, env[k])]
            else:
                rec["op"] = "run"
                rec["f"] = f = "id" if self.typed else rng.choice(list(FNS))
                big = 0
                args = []
                for _ in range(FNS[f]):
                    if rng.random() < 0.12:
                        x, h = self.host()
                        rec["args"].append(0)
                        rec["h"] += h
                        args.append(x)
                        big += 1 << 18
                    else:
                        k = rng.randrange(len(env))
                        rec["args"].append(k + 1)
                        args.append(env[k])
                        big += env[k]._vp_big
                if big > 1 << 28:                        # stay within the integers of the specification
                    rec["f"] = f = {1: "id", 2: "sub", 3: "add3"}[len(args)]
                if big > 1 << 29:
                    rec["f"], rec["args"], rec["h"] = f, _, _ = "id", rec["args"][:1], rec["h"][:2 * (rec["args"][0] == 0)]
                    args = args[:1]
                    big = (1 << 18) if rec["args"][0] == 0 else args[0]._vp_big
                if rng.random() < self.infer:
                    rec["dev"] = ""
                    auto = rng.random() < 0.85
                elif dev == "":
                    rec["dev"] = "nowhere"
                rec["auto"] = auto
                api.g_auto_trans = auto
                target = rec["dev"] or None
                fn = self.fn(f)
                kw = {}
                if rng.random() < 0.3 and len(args) == 2:
                    fn0 = fn
                    fn = lambda a, *, b: fn0(a, b)       # noqa: E731
                    args, kw = args[:1], {"b": args[1]}
                elif rng.random() < 0.25:
                    fn1, n1 = fn, len(args)
                    fn = lambda t: fn1(*t["x"][:n1 - 1], t["y"][0])      # noqa: E731
                    args = [{"x": tuple(args[:-1]), "y": [args[-1]]}]
                k = self.devs.get(rec["dev"], ("?",))[0]
                if k in ("PPU", "TEE") and rng.random() < 0.4:
                    out = device(target)(jax_fn(fn))(*args, **kw)
                elif k == "SPU" and rng.random() < 0.4:
                    out = device(target)(fn)(*args, **kw)
                else:
                    out = device(target).jax(fn)(*args, **kw)
                new = list(out) if isinstance(out, (tuple, list)) else [out]
        except (api.DeviceError, NotImplementedError) as e:
            rec["out"] = "refused"
            if os.environ.get("VP_DEBUG"):
                print("refused", rec, repr(e)[:200])
        except Exception as e:
            rec["out"] = "error"
            rec["why"] = repr(e)[:300]
        finally:
            api.g_auto_trans = True
        for o in new:
            o._vp_big = big
            rec["res"].append({"dev": str(getattr(o, "__device__", "")), "ranks": [], "kind": "", "v": [], "got": []})
        return rec, new

    def eager(self):
        from mplang.libs.device import fetch

        self.ev = []
        with self.interp:
            rec, new = self.op(self.env, True)
            for o, r in zip(new, rec["res"]):
                try:
                    self.value(o, r)
                    if self.devs.get(r["dev"], ("?",))[0] in ("PPU", "TEE"):
                        r["got"] = self.ints(fetch(o))
                        r["got"] = [] if r["got"] == r["v"] else r["got"] or [-98]
                except Exception as e:
                    rec["out"], rec["why"] = "error", repr(e)[:300]
        if rec["out"] == "ok":
            self.env += new
            for r in rec["res"]:
                self.seen(r["v"])
        self.groups.append({"c": 0, "fresh": False, "ops": [rec], "ev": self.ev})
        return rec["out"] != "error"

    def traced(self):
        import mplang

        self.ev = []
        ops, outs = [], []

        def prog():
            env, objs = [], []
            for _ in range(self.rng.randrange(1, 6)):
                rec, new = self.op(env, False)
                ops.append(rec)
                if rec["out"] != "ok":
                    break
                env += new
            outs.extend(env)
            return tuple(env)
        err = ""
        compiled = None
        try:
            compiled = mplang.compile(prog, context=self.interp)
        except Exception as e:
            err = repr(e)[:300]
        if any(o["out"] != "ok" for o in ops):
            self.c += 1
            self.groups.append({"c": self.c, "fresh": True, "ops": ops, "ev": []})
            return True
        for _ in range(self.rng.choice([1, 1, 2])):
            self.c += 1
            self.ev = []
            mine = json.loads(json.dumps(ops))
            try:
                if err:
                    raise RuntimeError(err)
                res = mplang.evaluate(compiled, context=self.interp)
                res = list(res) if isinstance(res, (tuple, list)) else [res]
                for o, r in zip(res, [r for m in mine for r in m["res"]], strict=True):
                    self.value(o, r)
            except Exception as e:
                err = repr(e)[:300]
                mine[-1]["out"], mine[-1]["why"] = "error", err
            self.groups.append({"c": self.c, "fresh": True, "ops": mine, "ev": self.ev})
            if err:
                return False
        return True

    def close(self):
        try:
            self.state.shutdown()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def trace(self):
        ids = list(self.devs)
        why = [o.pop("why", "") for g in self.groups for o in g["ops"]]
        return {"world": self.world, "ids": ids, "kinds": [self.devs[d][0] for d in ids], "members": [self.devs[d][1] for d in ids], "groups": self.groups,
                "why": "; ".join(x for x in why if x)[:600]}


def case(seed, tee=True, infer=0.4, steps=None, typed=False):
    r = Run(seed, tee, infer, typed)
    try:
        for _ in range(steps or r.rng.randrange(4, 10)):
            if not (r.eager() if r.rng.random() < 0.7 else r.traced()):
                break
        return r.trace()
    finally:
        r.close()
        gc.collect()
