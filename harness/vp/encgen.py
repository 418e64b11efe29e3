"""Random sequences of operations on encrypted values, run with the library."""
import random

BLANK = {"a": [], "n": [], "w": "", "out": "ok", "v": [], "cls": 0, "free": False}

# secp256k1, apart from the library
P = 2**256 - 2**32 - 977
ORDER = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
LIMIT = 400


def ec_add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (m * m - a[0] - b[0]) % P
    return x, (m * (a[0] - x) - a[1]) % P


_points = {}


def points():
    """The bytes of k times the generator, for small k."""
    if not _points:
        _points[bytes(65)] = 0
        q = None
        for k in range(1, LIMIT + 1):
            q = ec_add(q, G)
            for s, y in ((k, q[1]), (-k, P - q[1])):
                _points[b"\x04" + q[0].to_bytes(32, "big") + y.to_bytes(32, "big")] = s
    return _points


def np_array(xs, dt=None):
    import numpy as np

    return np.array(xs, dt or np.int32)


class Play:
    def __init__(self, rng, interp):
        self.rng, self.it = rng, interp
        self.ops, self.objs = [], []
        self.meta = []                  # what the generator knows of each result
        self.cls = {}
        self.secrets = []

    # one operation: build(), what to look at, how to read it
    def do(self, op, build, a=(), n=(), w="", look=None, read=None, meta=None, free=False):
        from vp import sched  # noqa: F401

        rec = {**BLANK, "op": op, "a": [i + 1 for i in a], "n": list(n), "w": w, "free": free}
        self.ops.append(rec)
        self.meta.append(meta or {})
        try:
            x = build(*[self.objs[i] for i in a])
            self.objs.append(x)
            if look:
                x = look(x)
        except Exception as e:
            if len(self.objs) < len(self.ops):
                self.objs.append(None)
            rec["out"] = "refused"
            rec["why"] = repr(e)[:120]
            self.meta[-1]["gone"] = True
            return None
        self.todo.append((rec, x, read))
        return x

    def finish(self, values):
        for (rec, _, read), x in zip(self.todo, values):
            if read:
                try:
                    rec.update(read(x))
                except Exception as e:
                    rec.update(out="refused", why=f"reading: {e!r}"[:160])

    def have(self, kind, **kw):
        return [i for i, m in enumerate(self.meta) if m.get("kind") == kind and not m.get("gone") and all(m.get(k) == v for k, v in kw.items())]

    def klass(self, b):
        return {"cls": self.cls.setdefault(bytes(b), len(self.cls) + 1)}


def raw(x):
    """What the runtime holds for a result."""
    x = getattr(x, "runtime_obj", x)
    return x


def arr(x):
    import numpy as np

    x = raw(x)
    return np.asarray(x.unwrap() if hasattr(x, "unwrap") else x)


# ---------------------------------------------------------------- slots
def slots(p, rng, n):
    from mplang.dialects import bfv as d, tensor

    deg, t = rng.choice([(4096, 65537), (4096, 65537), (4096, 1032193), (8192, 65537)])
    h = deg // 2
    big = t == 65537
    lt = 17 if big else 20
    budget = (130 if deg == 8192 else 65) - lt - 6                # bits of noise, with a margin
    pk, sk = d.keygen(poly_modulus_degree=deg, plain_modulus=t) if t != 1032193 else d.keygen(poly_modulus_degree=deg)
    enc, rk, gk = d.create_encoder(deg), d.make_relin_keys(sk), d.make_galois_keys(sk)
    look = lambda c: d.decode(d.decrypt(c, sk), enc)

    def read(x):
        a = arr(x)
        nz = [int(i) for i in a.nonzero()[0]]
        return {"v": [[i // h, i % h, int(a[i])] for i in nz[:60]] + ([[9, 9, 9]] if len(nz) > 60 else [])}
    far = rng.random() < 0.15

    def vec():
        z = rng.random()
        m = rng.choice([1, 1, 2, 3, 5])
        if z < 0.15:
            return [0] * m
        lim = 32768 if big and z < 0.4 else 9
        xs = [rng.choice([0, 1, -1, rng.randint(-lim, lim)]) for _ in range(m)]
        if far and z > 0.8:
            xs = xs[:3] + [0] * (h - len(xs[:3])) + xs[:3]                 # both rows
        return xs

    def bound(i):
        return p.meta[i]["b"]

    def plain():
        xs = vec()
        b = max(map(abs, xs))
        if rng.random() < 0.5:
            p.do("bfv.plain", lambda: d.encode(tensor.constant(np_array(xs)), enc), n=xs, read=read, meta={"kind": "pl", "b": b, "raw": True})
        else:
            rows = [xs] + [[rng.randint(-5, 5) if k < 5 else 0 for k in range(len(xs))] for _ in range(rng.choice([0, 0, 1, 2]))]
            outs = []

            def batch():
                if not outs:
                    outs.extend(d.batch_encode(tensor.constant(np_array(rows)), enc, pk))
                return outs.pop(0)
            for r in rows:
                p.do("bfv.batch", batch, n=r, look=lambda q: d.decode(q, enc), read=read, meta={"kind": "pl", "b": max(map(abs, r)), "raw": False})
    for _ in range(n):
        cs, ps = p.have("ct"), p.have("pl")
        z = rng.random()
        pick = lambda s: rng.choice(s) if rng.random() < 0.4 else s[-1]
        if not ps or z < 0.12:
            plain()
        elif len(cs) < 1 or z < 0.2:
            i = pick(ps)
            p.do("bfv.encp", lambda q: d.encrypt(q, pk), a=[i], look=look, read=read, meta={"kind": "ct", "b": bound(i), "sz": 2, "cost": 0, "anc": {len(p.ops)}})
        elif z < 0.32:
            i = pick(cs)
            m = p.meta[i]
            s = rng.choice([1, -1, 2, 3, -4, 7, 64, -100, h - 1, 1 - h, h // 2, 0, 0] + [h, -h, h + 3] * (m["sz"] == 2 and rng.random() < 0.2))
            p.do("bfv.rot", lambda c: d.rotate(c, s, gk), a=[i], n=[s], look=look, read=read, meta={**m, "cost": m["cost"] + 1}, free=m["sz"] > 2 or abs(s) >= h)
        elif z < 0.38:
            i = pick(cs)
            m = p.meta[i]
            if m["sz"] == 2:
                p.do("bfv.rotc", lambda c: d.rotate_columns(c, gk), a=[i], look=look, read=read, meta={**m, "cost": m["cost"] + 1})
        elif z < 0.48 and any(p.meta[i]["sz"] > 2 for i in cs) or z < 0.4:
            i = rng.choice([j for j in cs if p.meta[j]["sz"] > 2] or cs)
            p.do("bfv.relin", lambda c: d.relinearize(c, rk), a=[i], look=look, read=read, meta={**p.meta[i], "sz": 2, "cost": p.meta[i]["cost"] + 1}, free=bool(p.meta[i].get("sent") and p.meta[i].get("mix")))
        elif z < 0.54 and not p.traced:
            from mplang.edsl import serde

            i = pick(cs)
            form = rng.choice(["json", "bin", "b64"])

            def ship(c):
                v = raw(c)
                v = serde.loads(serde.dumps(v)) if form == "json" else serde.loads_binary(serde.dumps_binary(v)) if form == "bin" else serde.loads_b64(serde.dumps_b64(v))
                return type(c)(v, c.type, c.context) if hasattr(c, "context") else p.wrap(c, v)
            p.do("bfv.ship", ship, a=[i], look=look, read=read, meta={**p.meta[i], "sent": True})
        else:
            f = rng.choice(["add", "sub", "sub", "mul", "mul"])
            i = pick(cs)
            same = rng.random() < 0.15
            j = i if same else rng.choice(ps) if rng.random() < 0.5 else rng.choice(cs)
            mi, mj = p.meta[i], p.meta[j]
            cc = mj["kind"] == "ct"
            if f == "mul":
                b = mi["b"] * mj["b"]
                sz = 3 if cc else mi["sz"]
                cost = max(mi["cost"], mj.get("cost", 0)) + lt + (13 if cc else 11)
                if cc and (mi["sz"] > 2 or mj["sz"] > 2):
                    continue
            else:
                b = mi["b"] + mj["b"]
                sz, cost = max(mi["sz"], mj.get("sz", 2)), max(mi["cost"], mj.get("cost", 0)) + 1
            if cost > budget:
                continue
            if not big and b > 500000:
                continue
            b = min(b, 32768) if big else b
            ab = [i, j] if cc or rng.random() < 0.5 else [j, i]
            fn = {"add": d.add, "sub": d.sub, "mul": d.mul}[f]
            sent = mi.get("sent") or mj.get("sent")
            mix = bool(f != "mul" and cc and mi["anc"] & mj["anc"])    # may be the same ciphertext again
            meta = {"kind": "ct", "b": b, "sz": sz, "cost": cost, "sent": sent, "anc": mi["anc"] | mj.get("anc", set()), "mix": mix or mi.get("mix") or mj.get("mix")}
            p.do("bfv." + f, fn, a=ab, look=look, read=read, meta=meta, free=bool(sent and (f != "mul" and not cc or mix)), w="mix" if mix else "")
    return {"t": t, "h": h}


# ---------------------------------------------------------------- sums
def sums(p, rng, n):
    import mplang.edsl.typing as elt
    from mplang.dialects import phe, tensor

    bits = rng.choice([0, 2, 4])
    pk, sk = phe.keygen(key_size=rng.choice([256, 512])) if rng.random() < 0.8 else phe.keygen(scheme="paillier", key_size=256)
    e = phe.create_encoder(dtype=elt.f32, fxp_bits=bits)
    look = lambda c: phe.decode(phe.decrypt(c, sk), e)

    def read(x):
        return {"v": [int(y) if float(y).is_integer() and abs(y) < 10**9 else -(10**9) for y in (float(z) * 2**bits for z in arr(x).reshape(-1).tolist())]}
    import numpy as np

    m = rng.choice([1, 2, 3])

    def val(k):
        xs = [rng.choice([0, 1, -1, rng.randint(-40, 40)]) for _ in range(k)]
        return xs, np.array([x / 2**bits for x in xs], np.float32) if k > 1 or rng.random() < 0.5 else np.array(xs[0] / 2**bits, np.float32)
    for _ in range(n):
        cs, ps = p.have("ct"), p.have("pl")
        z = rng.random()
        if not ps or z < 0.15:
            xs, a = val(m)
            p.do("phe.plain", lambda: phe.encode(tensor.constant(a), e), n=xs, look=lambda q: phe.decode(q, e), read=read, meta={"kind": "pl", "b": max(map(abs, xs)), "nd": a.ndim})
        elif not cs or z < 0.35:
            i = rng.choice(ps)
            p.do("phe.encp", lambda q: phe.encrypt(q, pk), a=[i], look=look, read=read, meta={**p.meta[i], "kind": "ct"})
        else:
            i = rng.choice(cs)
            mul = rng.random() < 0.45
            j = rng.choice([x for x in ps if p.meta[x]["nd"] == p.meta[i]["nd"] or m == 1 or True]) if mul or rng.random() < 0.5 else rng.choice(cs)
            b = p.meta[i]["b"] * p.meta[j]["b"] if mul else p.meta[i]["b"] + p.meta[j]["b"]
            if b > 10**7:
                continue
            ab = [i, j] if rng.random() < 0.5 else [j, i]
            p.do("phe.mul" if mul else "phe.add", phe.mul_plain if mul else phe.add, a=ab, look=look, read=read, meta={"kind": "ct", "b": b, "nd": max(p.meta[i]["nd"], p.meta[j]["nd"])})
    return {"t": 1, "h": 1}


# ---------------------------------------------------------------- points
def group(p, rng, n):
    from mplang.dialects import crypto, tensor

    def read(x):
        return {"v": [points().get(arr(x).astype("uint8").tobytes(), 999999)]}
    look = crypto.ec_point_to_bytes
    p.do("ec.gen", crypto.ec_generator, look=look, read=read, meta={"kind": "pt", "b": 1})
    for _ in range(n):
        ps = p.have("pt")
        i = rng.choice(ps) if rng.random() < 0.5 else ps[-1]
        z = rng.random()
        if z < 0.35:
            s = rng.choice([0, 1, 2, 3, 5, 7, -1, -2, -3])
            if abs(s) * p.meta[i]["b"] > LIMIT or (s < 0 and p.traced and False):
                continue
            p.do("ec.mul", lambda q: crypto.ec_mul(q, crypto.ec_scalar_from_int(tensor.constant(np_array(s)))), a=[i], n=[s], look=look, read=read, meta={"kind": "pt", "b": abs(s) * p.meta[i]["b"]})
        elif z < 0.8:
            j = i if rng.random() < 0.3 else rng.choice(ps)
            if p.meta[i]["b"] + p.meta[j]["b"] > LIMIT:
                continue
            f = rng.choice(["add", "sub"])
            p.do("ec." + f, crypto.ec_add if f == "add" else crypto.ec_sub, a=[i, j], look=look, read=read, meta={"kind": "pt", "b": p.meta[i]["b"] + p.meta[j]["b"]})
        elif z < 0.88:
            p.do("ec.bytes", lambda q: crypto.ec_bytes_to_point(crypto.ec_point_to_bytes(q)), a=[i], look=look, read=read, meta=dict(p.meta[i]))
        elif z < 0.94:
            j, c = rng.choice(ps), rng.choice([0, 1])
            p.do("ec.select", lambda a, b: crypto.select(tensor.constant(np_array(c)), a, b), a=[i, j], n=[c], look=look, read=read,
                 meta={"kind": "pt", "b": max(p.meta[i]["b"], p.meta[j]["b"])})
        elif not p.traced:
            from mplang.edsl import serde

            p.do("ec.ship", lambda q: p.wrap(q, serde.loads_b64(serde.dumps_b64(raw(q)))), a=[i], look=look, read=read, meta=dict(p.meta[i]))
    return {"t": 1, "h": 1}


# ---------------------------------------------------------------- keys and symmetric encryption
def keys(p, rng, n):
    import numpy as np

    from mplang.dialects import crypto, tensor

    kb = lambda x: p.klass(raw(x).key_bytes)
    pool = [np.array([1, 2, 3], np.int32), np.array([1, 2, 4], np.int32), np.array(5, np.int32), np.array([[1.5, -2.0]], np.float32), np.array([0], np.int32), np.array([0, 0], np.uint8), np.array([1, 2, 3], np.uint8),
            np.array([True, False])]
    infos = ["mplang/a", "mplang/b", "mplang/a ", "a", "mplang/é"]

    def same(i):
        def read(x):
            a = arr(x)
            return {"v": [i] if a.dtype == pool[i].dtype and a.shape == pool[i].shape and (a == pool[i]).all() else [-1]}
        return read

    def pair():
        sk, pk = crypto.kem_keygen(rng.choice(["x25519"]))
        p.pairs[len(p.ops)] = (sk, pk)
        return sk
    p.pairs = {}
    for _ in range(n):
        ks, prs, cts = p.have("key"), p.have("pair"), p.have("ct")
        z = rng.random()
        if len(prs) < 2 or z < 0.06:
            p.do("kem.keygen", pair, read=lambda x: p.klass(raw(x).key_bytes), meta={"kind": "pair"})
        elif len(ks) < 1 or z < 0.25:
            i, j = rng.choice(prs), rng.choice(prs)
            p.do("kem.derive", lambda a, b, i=i, j=j: crypto.kem_derive(p.pairs[i + 1][0], p.pairs[j + 1][1]), a=[i, j], read=kb, meta={"kind": "key"})
        elif z < 0.45:
            i, w = rng.choice(ks), rng.choice(infos)
            p.do("hkdf", lambda k: crypto.hkdf(k, w), a=[i], w=w, read=kb, meta={"kind": "key"})
        elif z < 0.6 or not cts:
            i, v = rng.choice(ks), rng.randrange(len(pool))
            p.do("sym.enc", lambda k: crypto.sym_encrypt(k, tensor.constant(pool[v])), a=[i], n=[v], read=lambda x: p.klass(raw(x).unwrap()), meta={"kind": "ct", "of": v, "key": i})
        elif z < 0.72 and not p.traced:
            i = rng.choice(cts)
            z2, z3, bit = rng.random(), rng.random(), rng.randrange(8)

            def alter(c):
                b = bytearray(raw(c).unwrap())
                if z2 < 0.7:
                    b[int(z3 * len(b))] ^= 1 << bit
                elif z2 < 0.85:
                    del b[int(z3 * len(b)):]
                else:
                    b += bytes([bit])
                return p.wrap(c, type(raw(c))(bytes(b)))
            p.do("sym.alter", alter, a=[i], meta={"kind": "ct", "of": p.meta[i]["of"], "key": p.meta[i]["key"], "bad": True})
        elif z < 0.77 and not p.traced:
            from mplang.edsl import serde

            i = rng.choice(cts)
            p.do("sym.ship", lambda c: p.wrap(c, serde.loads_b64(serde.dumps_b64(raw(c)))), a=[i], meta=dict(p.meta[i]))
        elif z < 0.94:
            j = rng.choice(cts)
            i = p.meta[j]["key"] if rng.random() < 0.7 else rng.choice(ks)
            if p.traced and (i != p.meta[j]["key"] or p.meta[j].get("bad")):
                continue
            v = p.meta[j]["of"]
            ty = tensor.constant(pool[v]).type
            p.do("sym.dec", lambda k, c: crypto.sym_decrypt(k, c, ty), a=[i, j], read=same(v), meta={"kind": "data"})
        else:
            v = rng.randrange(len(pool))
            p.do("hash", lambda: crypto.hash_bytes(tensor.constant(pool[v])), n=list(pool[v].tobytes()), read=lambda x: p.klass(arr(x).tobytes()), meta={"kind": "hash"})
    return {"t": 1, "h": 1}


SCHEMES = {"slots": slots, "sums": sums, "group": group, "keys": keys}


def case(seed, scheme=None):
    import mplang
    import mplang.backends.bfv_impl  # noqa: F401
    import mplang.backends.crypto_impl  # noqa: F401
    import mplang.backends.phe_impl  # noqa: F401
    from mplang.runtime.interpreter import InterpObject, Interpreter

    rng = random.Random(seed)
    scheme = scheme or rng.choice(["slots", "slots", "sums", "group", "keys"])
    it = _it.setdefault("i", None) or _it.update(i=Interpreter()) or _it["i"]
    p = Play(rng, it)
    p.traced = rng.random() < 0.4
    p.todo = []
    p.wrap = lambda c, v: InterpObject(v, c.type, it)
    n = rng.choice([6, 12, 20])
    why = scheme
    head = {}
    with it:
        if p.traced:
            try:
                def fn():
                    head.update(SCHEMES[scheme](p, rng, n))
                    return tuple(x for _, x, _ in p.todo)
                out = mplang.evaluate(fn)
                p.finish(out)
            except Exception as e:
                why += f" traced {e!r}"[:300]
                for rec in p.ops:
                    rec["out"] = "refused"
        else:
            head.update(SCHEMES[scheme](p, rng, n))
            p.finish([x for _, x, _ in p.todo])
    for r in p.ops:
        r.setdefault("why", "")
    return {"t": head.get("t", 1), "h": head.get("h", 1), "ops": p.ops, "why": why + (" traced" if p.traced else " eager")}


_it = {}
