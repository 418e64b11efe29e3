"""Random runs of the two- and three-party protocols of the library on an in-process cluster."""
import os
import random
import subprocess
import threading

KERNELS = None        # path of compiled kernels, if any


def build_kernels(d):
    """The C++ kernels of the working tree, compiled in a directory of the check."""
    repo = os.environ.get("VP_REPO", "/repo")
    k = os.path.join(repo, "mplang", "kernels")
    r = subprocess.run(["make", "-C", d, "-f", f"{k}/Makefile", f"VPATH={k}", "CXXFLAGS=-O2 -Wall -shared -fPIC -march=x86-64-v2 -mpclmul -maes -fopenmp"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    p = os.path.join(d, "libmplang_kernels.so")
    return p if r.returncode == 0 and os.path.exists(p) else None


def flat(x, seen=None):
    """All arrays, bytes and numbers in a message."""
    import numpy as np

    seen = seen if seen is not None else set()
    if id(x) in seen or x is None or isinstance(x, (str, bool)):
        return
    seen.add(id(x))
    if isinstance(x, (bytes, bytearray, memoryview)):
        yield bytes(x)
    elif isinstance(x, (int, np.generic)):
        yield np.asarray(x)
    elif isinstance(x, np.ndarray) or type(x).__module__.startswith("jax"):
        a = np.asarray(x)
        if a.dtype == object:
            for y in a.reshape(-1):
                yield from flat(y, seen)
        else:
            yield a
    elif isinstance(x, dict):
        for y in x.values():
            yield from flat(y, seen)
    elif isinstance(x, (list, tuple, set)):
        for y in x:
            yield from flat(y, seen)
    elif hasattr(x, "__dict__"):
        yield from flat(vars(x), seen)
    elif hasattr(x, "__slots__"):
        yield from flat([getattr(x, s, None) for s in x.__slots__], seen)


class Cluster:
    def __init__(self, world):
        import mplang.backends.bfv_impl  # noqa: F401
        import mplang.backends.crypto_impl  # noqa: F401
        import mplang.backends.field_impl as f
        import mplang.backends.tensor_impl  # noqa: F401

        from vp import simprun

        f._KERNEL_LIB_PATH = KERNELS or "/nonexistent/libmplang_kernels.so"
        f._LIB = None
        self.sim, self.world = simprun.Sim(world), world
        self.msgs, self.lock = [], threading.Lock()
        self.keys, self.hashes = {}, {}          # what a party decrypts with, what it hashes to
        for p in self.sim.proxies:
            p.__dict__["_on_send"] = self.sent
        for infra in self.sim.infras:
            self.listen(infra)

    def sent(self, frm, to, key, data):
        with self.lock:
            self.msgs.append((frm, to, list(flat(data))))

    def listen(self, infra):
        from mplang.edsl.registry import get_impl

        def note(opcode, pick, into):
            inner = infra.handlers.get(opcode) or get_impl(opcode)
            if inner is None:
                return

            def handler(interp, op, *args):
                r = inner(interp, op, *args)
                with self.lock:
                    into.setdefault(infra.rank, []).extend(pick(args, r))
                return r
            infra.handlers = {**infra.handlers, opcode: handler}
        note("crypto.sym_decrypt", lambda a, r: [b if isinstance(b, bytes) else b.tobytes() for b in flat(a[0])], self.keys)
        note("crypto.hash_batch", lambda a, r: list(flat(r)), self.hashes)

    def run(self, fn, traced):
        import mplang as mp

        with self.sim.interp:
            r = mp.evaluate(fn) if traced else fn()
            many = isinstance(r, (tuple, list))
            out = [mp.fetch(x) for x in (r if many else [r])]
        if self.world == 1:
            out = [[x] for x in out]
        return out

    def close(self):
        self.sim.close()


def const(rank, a):
    from mplang.dialects import simp

    return simp.constant((rank,), a)


def words(rng, n, lim=2**63):
    return [rng.choice([0, 1, -1, lim - 1, -lim, rng.randint(-lim, lim - 1), rng.randint(-lim, lim - 1), rng.randint(-lim, lim - 1)]) for _ in range(n)]


def strs(a):
    import numpy as np

    return [str(x) for x in np.asarray(a).reshape(-1).tolist()]


def rows(a):
    import numpy as np

    a = np.asarray(a)
    return [x.tobytes().hex() for x in a]


def elements(a):
    """Field elements as the exponents of their bits."""
    import numpy as np

    a = np.asarray(a)
    if a.dtype != np.uint64:
        a = np.ascontiguousarray(a).view(np.uint64)
    out = []
    for lo, hi in a.reshape(-1, 2).tolist():
        x = lo | hi << 64
        out.append([i for i in range(128) if x >> i & 1])
    return out


def holds(parts, bits=None, texts=(), least=16):
    """Is a vector of bits, or one of the texts, among the parts of a message?"""
    import numpy as np

    for p in parts:
        if isinstance(p, bytes):
            if any(t in p for t in texts):
                return True
            continue
        if bits is not None and len(bits) >= least and p.size >= len(bits) and p.size % len(bits) == 0:
            q = p.reshape(-1, len(bits))
            if any((q == bits).all(axis=1)) or p.ndim == 2 and p.shape[0] == len(bits) and any((p.T == bits).all(axis=1)):
                return True
        if bits is not None and len(bits) >= least and p.dtype == np.uint8:
            for order in ("little", "big"):
                packed = np.packbits(np.asarray(bits, np.uint8), bitorder=order).tobytes()
                if len(bits) >= 64 and packed in p.tobytes():
                    return True
        b = p.tobytes()
        if any(t in b for t in texts):
            return True
    return False


def same(part, values):
    return not isinstance(part, bytes) and part.size == len(values) and part.dtype.kind in "iuf" and part.reshape(-1).tolist() == list(values)


def roles(rng, n):
    world = rng.choice([n, n, n + 1, n + 2])
    rs = list(range(world))
    rng.shuffle(rs)
    return world, rs[:n]


def routes(c):
    return sorted({(f, t) for f, t, _ in c.msgs})


# ------------------------------------------------------------------ oblivious transfer
def transfer(rng, traced):
    """Naor-Pinkas, position by position."""
    import numpy as np
    from cryptography.hazmat.primitives.ciphers.aead import AESGCM

    from mplang.libs.mpc.ot import base

    world, (s, r) = roles(rng, 2)
    n = rng.choice([1, 2, 3, 7, 16, 20])
    shape = rng.choice([(n,), (n,), (n,), (2, n), ()])
    k = int(np.prod(shape))
    dt = rng.choice([np.int64, np.int64, np.int32, np.uint8, np.float64, np.float32])
    if dt in (np.float64, np.float32):
        m0, m1 = [[rng.choice([0.0, -1.5, 3.25, 1e30, rng.random()]) for _ in range(k)] for _ in range(2)]
    else:
        lim = {np.int64: 2**63, np.int32: 2**31, np.uint8: 2**7}[dt]
        m0, m1 = [[w + lim * (dt is np.uint8) for w in words(rng, k, lim)] for _ in range(2)]
    b = [rng.randrange(2) for _ in range(k)]
    z = rng.random()
    b = [0] * k if z < 0.08 else [1] * k if z < 0.16 else b
    m0, m1 = np.array(m0, dt).reshape(shape), np.array(m1, dt).reshape(shape)
    bb = np.array(b, rng.choice([np.int64, np.int32, np.uint8])).reshape(shape)
    c = Cluster(world)
    try:
        out = c.run(lambda: base.transfer(const(s, m0), const(s, m1), const(r, bb), s, r), traced)[0]
        f0, f1 = m0.reshape(-1), m1.reshape(-1)
        other = [f1[i] if b[i] == 0 else f0[i] for i in range(k)]
        mine = {(f0[i] if b[i] == 0 else f1[i]).tobytes() for i in range(k)}
        hidden = {x.tobytes() for x in other} - mine
        leaks = []
        for f, t, parts in c.msgs:
            if t == s and (holds(parts, bits=np.array(b)) or any(not isinstance(p, bytes) and p.size == 1 for p in parts)):
                leaks.append("choice")
            if t == r and len(f0[0].tobytes()) >= 8 and holds(parts, texts=[h for h in hidden if len(set(h)) > 3]):
                leaks.append("message")
        # what the keys of the receiver open
        opened = set()
        for f, t, parts in c.msgs:
            if t == r:
                for p in parts:
                    p = p if isinstance(p, bytes) else p.tobytes()
                    if 28 < len(p) < 400:
                        for key in set(c.keys.get(r, [])):
                            try:
                                opened.add(AESGCM(key).decrypt(p[:12], p[12:], None))
                            except Exception:
                                pass
        if len(opened) > k or len(mine) == k and any(h in o for o in opened for h in hidden if len(set(h)) > 3):
            leaks.append("opened")
        return {"kind": "ot", "m0": strs(m0), "m1": strs(m1), "c": b, "out": strs(np.array([np.asarray(x) for x in np.asarray(out[r], object).reshape(-1)], dt)), "only": [r] == [i for i in range(world) if out[i] is not None],
                "leaks": leaks, "routes": [list(x) for x in routes(c)], "s": s, "r": r, "keys": len(set(c.keys.get(r, [])))}
    finally:
        c.close()


def extension(rng, traced):
    import numpy as np

    from mplang.libs.mpc.ot import extension as ext

    world, (s, r) = roles(rng, 2)
    n, d = rng.choice([1, 2, 16, 127, 128, 129, 200]), rng.choice([1, 8, 16, 16, 32])
    m0, m1 = [np.array([[rng.randrange(256) for _ in range(d)] for _ in range(n)], np.uint8) for _ in range(2)]
    b = [rng.randrange(2) for _ in range(n)]
    c = Cluster(world)
    try:
        out = c.run(lambda: ext.transfer_extension(const(s, m0), const(s, m1), const(r, np.array(b, np.uint8)), s, r, n), traced)[0]
        hidden = {(m1 if b[i] == 0 else m0)[i].tobytes() for i in range(n)} - {(m0 if b[i] == 0 else m1)[i].tobytes() for i in range(n)}
        leaks = []
        for f, t, parts in c.msgs:
            if t == s and holds(parts, bits=np.array(b), least=64):
                leaks.append("choice")
            if t == r and d >= 8 and holds(parts, texts=hidden):
                leaks.append("message")
        hs = [h for h in c.hashes.get(r, []) if not isinstance(h, bytes) and h.ndim == 2 and h.shape[0] == n]
        last = [p for f, t, parts in c.msgs if t == r for p in parts if not isinstance(p, bytes) and p.shape == (n, d)]
        if d >= 8 and any((p ^ h[:, :d])[i].tobytes() in hidden for p in last for h in hs for i in range(n)):
            leaks.append("opened")
        return {"kind": "ot", "m0": rows(m0), "m1": rows(m1), "c": b, "out": rows(out[r]), "only": [r] == [i for i in range(world) if out[i] is not None],
                "leaks": leaks, "routes": [list(x) for x in routes(c)], "s": s, "r": r, "keys": n}
    finally:
        c.close()


def some(rng, n, k=10):
    return sorted({0, n - 1} | {rng.randrange(n) for _ in range(k - 2)})


def vole(rng, traced, which=None):
    import numpy as np

    from mplang.dialects import tensor
    from mplang.libs.mpc.ot import silent
    from mplang.libs.mpc.vole import gilboa, silver

    world, (s, r) = roles(rng, 2)
    which = which or rng.choice(["gilboa", "silent", "silver"])
    n = rng.choice([1, 2, 63, 100, 128, 129]) if which != "silver" else rng.choice([128, 300])
    w64 = lambda: rng.choice([0, 1, 2**64 - 1, 2**63, rng.getrandbits(64), rng.getrandbits(64), rng.getrandbits(64)])
    u0 = np.array([[w64(), w64()] for _ in range(n)], np.uint64)
    d0 = np.array(rng.choice([[w64(), w64()], [rng.getrandbits(64), rng.getrandbits(64)], [0, 2**63]]), np.uint64)
    base = rng.choice([64, 128, 256])
    c = Cluster(world)
    try:
        def fn():
            if which == "gilboa":
                return gilboa.vole(s, r, n, lambda: tensor.constant(u0), lambda: tensor.constant(d0), return_secrets=True)
            if which == "silent":
                return silent.silent_vole_random_u(s, r, n, base_k=base)
            return silver.silver_vole(s, r, n, return_secrets=True)
        v, w, u, d = c.run(fn, traced)
        at = lambda x, p: [i for i in range(world) if x[i] is not None] == [p]
        ok = at(v, s) and at(w, r) and at(u, s) and at(d, r)
        V, W, U, D = (np.asarray(x) for x in (v[s], w[r], u[s], d[r]))
        given = which != "gilboa" or bool((np.asarray(U) == u0).all() and (np.asarray(D) == d0).all())
        leaks = []
        for f, t, parts in c.msgs:
            if t == s and len(set(np.asarray(D).tobytes())) > 5 and holds(parts, bits=np.unpackbits(np.asarray(D).view(np.uint8), bitorder="little"), texts=[np.asarray(D).tobytes()]):
                leaks.append("delta")
            if t == r and any(len(set(x.tobytes())) > 3 and holds(parts, texts=[x.tobytes()]) for x in np.asarray(U)[:20]):
                leaks.append("u")
        noise = []
        if which == "silver":                      # positions without noise (it is in at most 64 positions)
            noise = [i for i in range(n) if gf(V[i], U[i], D) != word(W[i])]
            pos = [i for i in some(rng, n, 12) if i not in noise]
        else:
            pos = some(rng, n)
            pos = sorted(set(pos) | set([i for i in range(n) if gf(V[i], U[i], D) != word(W[i])][:3]))
        return {"kind": "vole", "n": n, "lens": [len(V), len(W), len(U)], "v": elements(V[pos]), "w": elements(W[pos]), "u": elements(U[pos]), "d": elements(D)[0],
                "only": ok, "given": given, "noise": len(noise), "leaks": leaks, "routes": [list(x) for x in routes(c)], "s": s, "r": r, "which": which,
                "same": len({x.tobytes() for x in np.asarray(V)}) if which != "silver" else n}
    finally:
        c.close()


def word(x):
    return int(x[0]) | int(x[1]) << 64


def gf_mul(a, b):
    r = 0
    for i in range(128):
        if b >> i & 1:
            r ^= a << i
    for i in range(254, 127, -1):
        if r >> i & 1:
            r ^= (1 << 128 | 0x87) << (i - 128)
    return r


def gf(v, u, d):
    return word(v) ^ gf_mul(word(u), word(d))


def oprf(rng, traced):
    """Both sides of the pseudorandom function agree on equal inputs in equal positions."""
    import numpy as np

    from mplang.libs.mpc.psi import oprf as o

    world, (s, r) = roles(rng, 2)
    n = rng.choice([1, 3, 8, 40])
    xs = np.array([[rng.randrange(256) for _ in range(16)] for _ in range(n)], np.uint8)
    ys = xs.copy()
    for i in range(n):
        z = rng.random()
        if z < 0.25:
            ys[i] = xs[rng.randrange(n)]
        elif z < 0.5:
            ys[i, rng.randrange(16)] ^= 1 << rng.randrange(8)
    c = Cluster(world)
    try:
        def fn():
            key, out = o.eval_oprf(const(r, xs), s, r, n)
            return o.sender_eval_prf_batch(key, const(s, ys), s, n), out
        a, b = c.run(fn, traced)
        return {"kind": "prf", "x": rows(xs), "y": rows(ys), "a": rows(a[s]), "b": rows(b[r]), "only": a[r] is None and b[s] is None}
    finally:
        c.close()


# ------------------------------------------------------------------ sets
def items(rng, n, kind):
    base = rng.getrandbits(64)
    f = {"small": lambda: rng.randrange(1, 4 * n + 4), "wide": lambda: rng.getrandbits(64), "high": lambda: 2**64 - 1 - rng.randrange(4 * n + 4),
         "seq": lambda: (base + rng.randrange(3 * n + 3)) % 2**64, "halves": lambda: rng.randrange(2 * n + 2) << 32 | rng.randrange(3)}[kind]
    out = set()
    while len(out) < n:
        out.add(f())
    out = list(out)
    if rng.random() < 0.3 and n > 1 and 0 not in out:
        out[0] = 0
    return out


def pair(rng, n, m):
    kind = rng.choice(["small", "wide", "high", "seq", "halves"])
    a = items(rng, n, kind)
    both = rng.choice([0, min(n, m), rng.randrange(min(n, m) + 1)])
    b = rng.sample(a, both)
    for x in items(rng, 3 * (n + m) + m, kind):
        if len(b) < m and x not in a and x not in b:
            b.append(x)
    while len(b) < m:
        x = rng.getrandbits(64)
        if x not in a and x not in b:
            b.append(x)
    rng.shuffle(a)
    rng.shuffle(b)
    return a, b


def intersect(rng, traced, which=None):
    import numpy as np

    from mplang.libs.mpc.psi import rr22, unbalanced

    world, (s, r) = roles(rng, 2)
    which = which or rng.choice(["rr22", "unbalanced"])
    if which == "rr22":
        n = m = rng.choice([1, 2, 3, 5, 6, 11])
    else:
        n, m = rng.choice([1, 2, 3, 8, 20, 100, 199, 200, 201, 250]), rng.choice([1, 2, 5, 30])
    a, b = pair(rng, n, m)
    A, B = np.array(a, np.uint64), np.array(b, np.uint64)
    c = Cluster(world)
    try:
        fn = (lambda: rr22.psi_intersect(s, r, n, const(s, A), const(r, B))) if which == "rr22" else (lambda: unbalanced.psi_unbalanced(s, r, n, m, const(s, A), const(r, B)))
        out = c.run(fn, traced)[0]
        leaks = []
        for f, t, parts in c.msgs:
            secret = a if f == s else b
            if holds(parts, texts=[x.tobytes() for x in np.array(secret, np.uint64) if len(set(x.tobytes())) > 4]):
                leaks.append("items")
        return {"kind": "psi", "leaks": leaks, "a": [str(x) for x in a], "b": [str(x) for x in b], "out": [int(x) for x in np.asarray(out[r]).reshape(-1)],
                "only": [i for i in range(world) if out[i] is not None] == [r], "routes": [list(x) for x in routes(c)], "s": s, "r": r, "which": which}
    finally:
        c.close()


def okvs(rng, traced, n=None, opt=False):
    import numpy as np

    from mplang.libs.mpc.psi import okvs_gct

    n = n or rng.choice([1, 2, 10, 50, 128, 200, 201, 300] + [1100] * (KERNELS is not None))
    keys = items(rng, n, rng.choice(["small", "wide", "high", "seq", "halves"]))
    rng.shuffle(keys)
    vals = np.array([[rng.choice([0, 2**64 - 1, rng.getrandbits(64), rng.getrandbits(64)]) for _ in range(2)] for _ in range(n)], np.uint64)
    m = int(n * okvs_gct.get_okvs_expansion(n))
    if rng.random() < 0.5:
        m = -(-m // 128) * 128
    seed = np.array([rng.getrandbits(64), rng.getrandbits(64)], np.uint64)
    twice = n > 1 and rng.random() < 0.08          # one key with two values: no encoding exists
    if twice:
        keys[rng.randrange(1, n)] = keys[0]
        vals = np.array([[i + 1, i] for i in range(n)], np.uint64)
    K = np.array(keys, np.uint64)
    c = Cluster(1)
    try:
        from mplang.dialects import simp

        store = okvs_gct.SparseOKVS(m)

        def fn():
            if opt:
                from mplang.dialects import field as fd

                t = simp.pcall_static((0,), lambda k, v, s: fd.solve_okvs_opt(k, v, m, s), const(0, K), const(0, vals), const(0, seed))
                return simp.pcall_static((0,), fd.decode_okvs_opt, const(0, K), t, const(0, seed)), t
            t = simp.pcall_static((0,), store.encode, const(0, K), const(0, vals), const(0, seed))
            return simp.pcall_static((0,), store.decode, const(0, K), t, const(0, seed)), t
        try:
            got, t = c.run(fn, traced)
        except Exception:
            if not twice:
                raise
            return {"kind": "okvs", "want": [], "got": [], "size": True, "n": n, "twice": True, "refused": True}
        ok = np.asarray(t[0]).reshape(-1, 2).shape[0] == m
        pos = some(rng, n, 30)
        bad = [i for i in range(n) if (np.asarray(got[0])[i] != vals[i]).any()][:5]
        pos = sorted(set(pos) | set(bad))
        return {"kind": "okvs", "want": rows(vals[pos]), "got": rows(np.asarray(got[0])[pos]), "size": bool(ok), "n": n, "twice": twice, "refused": False}
    finally:
        c.close()


def cuckoo(rng, traced):
    """Where items are put in a table, and where they are looked for."""
    import jax.numpy as jnp
    import numpy as np

    from mplang.libs.mpc.psi import cuckoo as ck

    n = rng.choice([1, 2, 5, 20, 60])
    size = max(1, int(n * rng.choice([1.0, 1.3, 1.5, 3.0])))
    kind = rng.choice(["small", "wide", "high", "seq", "halves"])
    its = np.array([list(x.to_bytes(8, "little")) + [rng.randrange(256) for _ in range(8)] for x in items(rng, n, kind)], np.uint8)
    seed = (rng.getrandbits(64), rng.getrandbits(64))
    table, pos, ok = (np.asarray(x) for x in ck.cuckoo_insert_batch(jnp.array(its), size, seed))
    look = np.asarray(ck.cuckoo_lookup_positions(jnp.array(its), size, seed))
    return {"kind": "cuckoo", "items": rows(its), "size": size, "pos": pos.tolist(), "ok": [bool(x) for x in ok], "at": [table[p].tobytes().hex() if p >= 0 else "" for p in pos],
            "look": look.tolist(), "used": int((table != 0).any(axis=1).sum()) if not (its == 0).all(axis=1).any() else int(ok.sum())}


def field(rng, traced):
    """Products and sums of field elements, and the expansion of seeds."""
    import numpy as np

    from mplang.dialects import field as f
    from mplang.dialects import simp

    n = rng.choice([1, 2, 5])
    w64 = lambda: rng.choice([0, 1, 2**64 - 1, 2**63, 1 << rng.randrange(64), rng.getrandbits(64), rng.getrandbits(64)])
    a, b = [np.array([[w64(), w64()] for _ in range(n)], np.uint64) for _ in range(2)]
    c = Cluster(1)
    try:
        def fn():
            return (simp.pcall_static((0,), f.mul, const(0, a), const(0, b)), simp.pcall_static((0,), f.add, const(0, a), const(0, b)))
        p, q = c.run(fn, traced)
        return {"kind": "field", "a": elements(a), "b": elements(b), "mul": elements(p[0]), "add": elements(q[0])}
    finally:
        c.close()


# ------------------------------------------------------------------ permutations and sums
def permute(rng, traced, perm=None):
    import numpy as np

    from mplang.libs.mpc.analytics import permutation

    world, (s, r) = roles(rng, 2)
    if perm is None:
        n = rng.choice([3, 5, 6, 7, 8, 9, 13, 16, 17])
        perm = list(range(n))
        rng.shuffle(perm)
    n = len(perm)
    dt = rng.choice([np.int64, np.int64, np.int32, np.float64])
    d = np.array(words(rng, n, 2**31 if dt is np.int32 else 2**63) if dt is not np.float64 else [rng.choice([0.5, -1e10, rng.random()]) for _ in range(n)], dt)
    p = np.array(perm, rng.choice([np.int64, np.int64, np.int32]))
    c = Cluster(world)
    try:
        ls = rng.random() < 0.25

        def fn():
            if ls:
                return tuple(permutation.apply_permutation([const(s, d[i]) for i in range(n)], const(r, p), s, r))
            return permutation.apply_permutation(const(s, d), const(r, p), s, r)
        out = c.run(fn, traced)
        got = [x for o in out for x in strs(o[r])] if ls else strs(out[0][r])
        leaks = ["permutation" for f, t, parts in c.msgs if t != r and n >= 5 and any(same(x, perm) for x in parts)]
        return {"kind": "perm", "leaks": leaks, "d": strs(d), "p": perm, "out": got, "only": all([i for i in range(world) if o[i] is not None] == [r] for o in out), "list": ls}
    finally:
        c.close()


def switch(rng, traced):
    import numpy as np

    from mplang.libs.mpc.analytics import permutation

    world, (s, r) = roles(rng, 2)
    n = rng.choice([1, 2, 4])
    x0, x1 = np.array(words(rng, n), np.int64), np.array(words(rng, n), np.int64)
    b = [rng.randrange(2) for _ in range(n)]
    c = Cluster(world)
    try:
        y = c.run(lambda: permutation.secure_switch(const(s, x0), const(s, x1), const(r, np.array(b, np.int64)), s, r), traced)
        return {"kind": "switch", "x0": strs(x0), "x1": strs(x1), "c": b, "y0": strs(y[0][r]), "y1": strs(y[1][r])}
    finally:
        c.close()


def grouped(rng, traced, which=None):
    import numpy as np

    from mplang.libs.mpc.analytics import groupby

    which = which or rng.choice(["bfv", "shuffle", "shuffle"])
    world, rs = roles(rng, 3)
    s, r, h = rs
    K = rng.choice([1, 2, 3, 5])
    if which == "bfv":
        n = rng.choice([1, 2, 7, 40, 2047, 2048, 2049, 4100])
        xs = [rng.choice([0, 1, -1, rng.randint(-60, 60)]) for _ in range(n)]
    else:
        n = rng.choice([1, 2, 3, 4, 6, 9])
        xs = [rng.choice([0, 1, -1, rng.randint(-10**6, 10**6)]) for _ in range(n)]
    z = rng.random()
    bins = [rng.randrange(K) for _ in range(n)] if z < 0.6 else [rng.choice([0, K - 1]) for _ in range(n)] if z < 0.8 else [K - 1] * n
    if z > 0.9:
        bins.sort(reverse=True)
    X, B = np.array(xs, np.int64), np.array(bins, rng.choice([np.int64, np.int32]))
    c = Cluster(world)
    try:
        if which == "bfv":
            fn = lambda: groupby.oblivious_groupby_sum_bfv(const(s, X), const(r, B), K, sender=s, receiver=r)
        else:
            fn = lambda: groupby.oblivious_groupby_sum_shuffle(const(s, X), const(r, B), K, sender=s, receiver=r, helper=h)
        out = c.run(fn, traced)[0]
        leaks = []
        for f, t, parts in c.msgs:
            if t == s and n >= 6 and len(set(bins)) > 1 and any(same(x, bins) or same(x, sorted(range(n), key=lambda i: bins[i])) for x in parts):
                leaks.append("groups")
            if t != s and n > max(K, 5) and len(set(xs)) > 2 and any(same(x, xs) or same(x, [xs[i] for i in sorted(range(n), key=lambda i: bins[i])]) for x in parts):
                leaks.append("data")
        big = n > 60
        if big:      # rows with the same bin and value together, as counts
            keep = {}
            for x, b in zip(xs, bins):
                keep[b, x] = keep.get((b, x), 0) + 1
            data = [[b, x, k] for (b, x), k in sorted(keep.items())]
        else:
            data = [[b, x, 1] for x, b in zip(xs, bins)]
        return {"kind": "group", "leaks": leaks, "K": K, "data": data, "out": [int(x) if abs(int(x)) < 2**31 else 2**31 - 1 for x in np.asarray(out[r]).reshape(-1)],
                "only": [i for i in range(world) if out[i] is not None] == [r], "which": which, "n": n}
    finally:
        c.close()


def aggregate(rng, traced):
    """Sums within one ciphertext."""
    import numpy as np

    from mplang.dialects import bfv, simp, tensor
    from mplang.libs.mpc.analytics import aggregation as ag

    op = rng.choice(["rotate", "rotate", "sparse", "masked", "strided"])
    k = rng.choice([1, 2, 3, 4, 5, 17, 64, 1000]) if op == "rotate" else rng.choice([2, 3, 6, 10])
    far = op == "rotate" and rng.random() < 0.4
    if far:
        k = rng.choice([2047, 2048, 2049, 2050, 3000, 4096])
    at = sorted({rng.randrange(k) for _ in range(min(k, 12))} | {0, k - 1})
    if far and k > 2048:
        at = sorted(set(at) | {2047, 2048})
    vec = {i: rng.choice([1, -1, rng.randint(-500, 500)]) for i in at}
    stride = rng.choice([1, 2, 7, 64, 200]) if op == "strided" else 1
    size = 4096
    x = np.zeros(size, np.int64)
    for i, y in vec.items():
        x[i * stride] = y
    aggs, used = [], set()
    if op == "sparse":
        for t in rng.sample(range(k), rng.choice([1, min(2, k)])):
            aggs.append((t, rng.sample(range(k), rng.choice([1, 2, min(3, k)]))))
    cts = rng.choice([1, 2, 3])
    masks = [[rng.randrange(2) for _ in range(k)] for _ in range(cts)]
    c = Cluster(1)
    try:
        def body():
            pk, sk = bfv.keygen(poly_modulus_degree=4096)
            gk, enc = bfv.make_galois_keys(sk), bfv.create_encoder(4096)
            ct = bfv.encrypt(bfv.encode(tensor.constant(x), enc), pk)
            if op == "rotate":
                y = ag.rotate_and_sum(ct, k, gk, slot_count=4096)
            elif op == "strided":
                y = ag.strided_rotate_and_sum(ct, stride, k, gk)
            elif op == "sparse":
                y = ag.aggregate_sparse(ct, aggs, gk, enc, size)
            else:
                y = ag.masked_aggregate([ct] * cts, [bfv.encode(tensor.constant(np.array(m, np.int64)), enc) for m in masks])
            return bfv.decode(bfv.decrypt(y, sk), enc)
        out = np.asarray(c.run(lambda: simp.pcall_static((0,), body), traced)[0][0]).reshape(-1)
        t = {"kind": "agg", "op": op, "x": [[i, v] for i, v in sorted(vec.items())]}
        if op in ("rotate", "strided"):
            return {**t, "sums": [[0, sorted(vec)]], "out": [[0, int(out[0])]]}
        if op == "sparse":
            return {**t, "sums": [[a, sorted(set(b))] for a, b in aggs], "out": [[a, int(out[a])] for a, _ in aggs]}
        return {**t, "sums": [[i, [i] * sum(m[i] for m in masks)] for i in range(k)], "out": [[i, int(out[i])] for i in range(k)]}
    finally:
        c.close()


KINDS = {f.__name__: f for f in (transfer, extension, vole, oprf, intersect, okvs, cuckoo, field, permute, switch, grouped, aggregate)}


def case(job):
    import jax

    jax.config.update("jax_enable_x64", True)
    global KERNELS
    name, seed, kw, native = job
    KERNELS = native
    rng = random.Random(seed)
    traced = rng.random() < 0.5
    import mplang.edsl.context as ctx

    try:
        t = KINDS[name](rng, traced, **kw)
        t["failed"] = ""
    except Exception as e:
        t = {"kind": "failed", "failed": f"{name}: {e!r}"[:400]}
    t["job"] = [name, seed, str(kw)]
    t["why"] = f"{name}{' ' + str(kw) if kw else ''} {'traced' if traced else 'eager'} {'native' if native else 'python'}"
    return t
