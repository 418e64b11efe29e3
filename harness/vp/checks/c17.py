"""C17: written values, types and programs read back equal (spec: Serde.tla)."""
import base64
import gzip
import hashlib
import json
import random
import struct

from vp import core, valgen
from vp.tlc import cfg, run_tlc, validate_traces

ERR = {"k": "error", "a": "", "kids": []}


def digest(x):
    s = x if isinstance(x, bytes) else json.dumps(x, sort_keys=True, default=str).encode()
    return hashlib.sha256(s).hexdigest()[:20]


def tree(t):
    """The canonical term of valgen as a term of the specification."""
    k = t[0]
    if k in ("list", "tuple"):
        return {"k": k, "a": "", "kids": [tree(x) for x in t[1]]}
    if k == "dict":
        return {"k": k, "a": "", "kids": [tree(x) for kv in t[1] for x in kv]}
    if k == "objarray":
        return {"k": k, "a": str(t[1]), "kids": [tree(x) for x in t[2]]}
    if k == "DriverVar":
        return {"k": k, "a": "", "kids": [tree(x) for x in t[1]]}
    if k == "FunctionValue":
        return {"k": k, "a": digest([t[1], t[2]]), "kids": [tree(x) for x in t[3]]}
    rest = json.dumps(t[1:], default=str)
    return {"k": k, "a": rest if len(rest) < 60 else digest(rest), "kids": []}


def forms():
    from mplang.edsl import serde

    def guard(w, r):
        return w, r

    return {
        "text": (lambda v: serde.dumps(v, compress=False), lambda b: serde.loads(b, compressed=False), True),
        "gzip": (lambda v: serde.dumps(v), serde.loads, False),
        "b64": (lambda v: serde.dumps_b64(v), serde.loads_b64, False),
        "b64text": (lambda v: serde.dumps_b64(v, compress=False), lambda b: serde.loads_b64(b, compressed=False), True),
        "container": (serde.dumps_binary, serde.loads_binary, True),
        "json": (lambda v: json.dumps(serde.to_json(v)).encode(), lambda b: serde.from_json(json.loads(b)), True),
    }


def read(r, b):
    """What reading gives; never an exception that is not the code's refusal."""
    try:
        v = r(b)
    except (MemoryError, RecursionError, KeyboardInterrupt):
        raise
    except Exception:  # noqa: BLE001  any error is a refusal
        return ERR
    try:
        return tree(valgen.term(v))
    except valgen.NoTerm as e:
        return {"k": "strange", "a": str(e), "kids": []}


def alter(rng, f, data):
    """Foreign tags, references to absent segments, damaged metadata."""
    def retag(node, at):
        spots = []

        def walk(x):
            if isinstance(x, dict):
                if isinstance(x.get("_kind"), str):
                    spots.append(x)
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        walk(node)
        # attributes and types inside a graph count as well: every tag must be known
        s = rng.choice(spots)
        how = rng.randrange(4)
        if how == 0 or not at:
            s["_kind"] = rng.choice(["_alien", "", "mplang.Nothing", s["_kind"] + "x", "builtins.eval", "_LIST", " " + s["_kind"]])
        elif how == 1:
            del s["_kind"]
        elif how == 2:
            s["_kind"] = rng.choice([None, "os.system"])
        else:
            refs = [x for x in spots if "bref" in x]
            if refs:
                rng.choice(refs)["bref"] = rng.choice([at, at + 1, 10**6])
            else:
                s["_kind"] = "_?"
        return node
    if f == "container":
        (n,) = struct.unpack_from("<I", data)
        meta, rest = json.loads(data[4:4 + n]), data[4 + n:]
        nseg, o = 0, 0
        while o < len(rest):
            o += 4 + struct.unpack_from("<I", rest, o)[0]
            nseg += 1
        m = json.dumps(retag(meta, max(nseg, 1)), separators=(",", ":")).encode()
        if rng.random() < 0.15:
            m = rng.choice([b"", m[:-1], b"[]", b"null", b"\xff" + m, b"3", b'"x"', b"{}"])
        return struct.pack("<I", len(m)) + m + rest
    if f == "gzip":
        return gzip.compress(json.dumps(retag(json.loads(gzip.decompress(data)), 1)).encode())
    if f == "b64":
        return base64.b64encode(gzip.compress(json.dumps(retag(json.loads(gzip.decompress(base64.b64decode(data))), 1)).encode())).decode()
    return json.dumps(retag(json.loads(data), 1)).encode()


def history(rng, objs, cuts, only=None):
    """Write and read a few objects in all forms; the events of the specification."""
    fs = forms()
    ev = []
    kept = []
    for o, v in enumerate(objs):
        t = tree(valgen.term(v))
        for f, (w, r, det) in fs.items():
            if only and f not in only:
                continue
            data = w(v)
            kept.append((f, data))
            ev.append({"e": "write", "o": o, "f": f, "x": digest(data if isinstance(data, bytes) else data.encode()), "t": t, "det": det, "n": 0})
            if rng.random() < 0.5:
                again = w(v)
                ev.append({"e": "write", "o": o, "f": f, "x": digest(again if isinstance(again, bytes) else again.encode()), "t": t, "det": det, "n": 0})
            if rng.random() < 0.7:
                ev.append({"e": "read", "o": 0, "f": f, "x": ev[-1]["x"], "t": read(r, kept[-1][1] if ev[-1]["x"] == digest(data if isinstance(data, bytes) else data.encode()) else again), "det": det, "n": 0})
    # later, in any order
    rng.shuffle(kept)
    for f, data in kept:
        w, r, det = fs[f]
        raw = data if isinstance(data, bytes) else data.encode()
        ev.append({"e": "read", "o": 0, "f": f, "x": digest(raw), "t": read(r, data), "det": det, "n": 0})
        if f == "container":
            ev.append({"e": "read", "o": 0, "f": f, "x": digest(raw), "t": read(r, bytearray(data)), "det": det, "n": 0})
        if len(data):
            where = range(len(data)) if len(data) <= cuts else sorted({0, 1, 2, 3, 4, 5, len(data) - 1, len(data) - 2, len(data) - 4, len(data) - 5} | {rng.randrange(len(data)) for _ in range(cuts)})
            if f not in ("container", "gzip", "text"):
                where = rng.sample(list(where), min(6, len(where)))
            seen = set()
            for n in where:
                t = read(r, data[:n])
                if t is ERR and (f, "e") in seen:
                    continue            # one event stands for all the cuts that were refused
                seen.add((f, "e") if t is ERR else (f, n))
                ev.append({"e": "short", "o": 0, "f": f, "x": digest(raw), "t": t, "det": det, "n": n})
        if f in ("container", "gzip", "b64", "text") and rng.random() < 0.6:
            bad = alter(rng, f, data)
            t = read(r, bad)
            ev.append({"e": "alien", "o": 0, "f": f, "x": digest(raw), "t": t, "det": det, "n": 0, **({} if t is ERR else {"bad": str(bad)[:3000]})})
    return ev


# -- terms of the specification as values
def concrete(t, rng, env):
    k, a, kids = t["k"], t["a"], t["kids"]
    if k in ("null", "bool", "int", "str", "bytes"):
        if k == "null":
            return None
        if k == "bool":
            return bool(a)
        if (k, a) not in env:
            while True:
                x = {"int": lambda: valgen.integer(rng), "str": lambda: valgen.text(rng), "bytes": lambda: b"" if a == 0 and rng.random() < 0.7 else valgen.blob(rng)}[k]()
                if all(not (k == k2 and x == y) for (k2, _), y in env.items()):
                    break
            env[k, a] = x
        return env[k, a]
    if k in ("list", "tuple"):
        return [list, tuple][k == "tuple"](concrete(x, rng, env) for x in kids)
    if k in ("dict", "pairs"):
        return {concrete(kids[i], rng, env): concrete(kids[i + 1], rng, env) for i in range(0, len(kids), 2)}
    if k == "reg" and a == 0:
        import numpy as np

        x = np.empty(len(kids), dtype=object)
        for i, y in enumerate(kids):
            x[i] = concrete(y, rng, env)
        return x
    from mplang.backends.func_impl import FunctionValue

    return FunctionValue(valgen.some_graph(rng), name="f", captured=[concrete(x, rng, env) for x in kids])


def random_objects(rng):
    z = rng.randrange(10)
    if z < 5:
        return [valgen.value(rng, rng.choice([1, 2, 3])) for _ in range(rng.choice([1, 2, 4]))]
    if z < 7:
        return [valgen.a_type(rng, rng.choice([0, 1, 2, 3])) for _ in range(rng.choice([1, 3, 6]))]
    if z == 7:
        return [valgen.a_config(rng), {"c": valgen.a_config(rng), "t": valgen.a_type(rng)}]
    return [valgen.built_graph(rng, 2) if rng.random() < 0.7 else valgen.some_graph(rng) for _ in range(rng.choice([1, 2]))]


def own_equality(chk, rng):
    """Types and settings also compare by their own equality: read back ones are equal and hash the same."""
    fs = forms()
    v = rng.choice([valgen.a_type, lambda r: valgen.a_config(r)])(rng)
    for f, (w, r, _) in fs.items():
        u = r(w(v))
        if not (u == v and v == u and hash(u) == hash(v) and type(u) is type(v)):
            chk.violation(f"own-equality:{f}", {"type": repr(v), "read": repr(u)})


def shares(rng):
    """Values of engines: secret shares and homomorphic contexts, compared by their parts."""
    out = []
    import spu.libspu as libspu

    from mplang.backends.spu_impl import SPUShareValue

    for _ in range(3):
        s = libspu.Share()
        s.meta = valgen.blob(rng)
        s.share_chunks = [valgen.blob(rng) for _ in range(rng.randrange(4))]
        out.append(SPUShareValue(s))
    return out


def bfv(chk):
    """Contexts and ciphertexts read back serve in the place of the originals."""
    import mplang.edsl as el
    import numpy as np
    from mplang.backends import bfv_impl
    from mplang.backends.tensor_impl import TensorValue  # noqa: F401
    from mplang.dialects import bfv as d
    from mplang.dialects import tensor
    from mplang.edsl import serde
    from mplang.runtime.interpreter import InterpObject, Interpreter

    interp = Interpreter()
    rng = random.Random(f"{chk.seed}-bfv")
    with interp:
        pk, sk = d.keygen(poly_modulus_degree=4096)
        enc = d.create_encoder(4096)
        relin, galois = None, None
        for rep in range(chk.n(3, 12)):
            vals = np.array([rng.randrange(-1000, 1000) for _ in range(8)], dtype=np.int64)
            c = d.encrypt(d.encode(tensor.constant(vals), enc), pk)
            for f, (w, r, _) in forms().items():
                c2 = InterpObject(r(w(c.runtime_obj)), c.type, interp)
                sk2 = InterpObject(r(w(sk.runtime_obj)), sk.type, interp)
                pk2 = InterpObject(r(w(pk.runtime_obj)), pk.type, interp)
                c3 = d.encrypt(d.encode(tensor.constant(vals), enc), pk2)
                for name, ct, key in (("ciphertext", c2, sk), ("secret key", c, sk2), ("public key", c3, sk), ("all", c2, sk2)):
                    got = np.asarray(d.decode(d.decrypt(ct, key), enc).runtime_obj.unwrap())[:8]
                    chk.count("bfv_reads")
                    if list(got) != list(vals):
                        chk.violation(f"bfv:{f}:{name}", {"vals": list(map(int, vals)), "got": [int(x) for x in got]})
                if hasattr(pk2.runtime_obj, "secret_key") or pk2.runtime_obj.ts_ctx.has_secret_key():
                    chk.violation(f"bfv:{f}:public key with the secret", {})
    del bfv_impl, el, serde, relin, galois


def evaluation(chk, n):
    """Programs read back give the same results."""
    from mplang.edsl import serde
    from mplang.edsl.tracer import Tracer
    from mplang.runtime.interpreter import Interpreter

    from vp import tracegen

    def job(i):
        from mplang.runtime.interpreter import InterpObject

        rng = random.Random(f"{chk.seed}-C17e-{i}")
        p = tracegen.gen(rng)
        m = tracegen.Machine(p)
        interp = Interpreter(handlers={"vpt.op": m.handler})
        n = p["fns"][0]["np"]
        objs = []
        for k in range(n):
            objs.append(objs[p["alias"][k]] if p["alias"][k] != k else InterpObject(rng.randrange(1, 9000), m.ty, interp))
        outers = [objs[s] if s >= 0 else InterpObject(rng.randrange(1, 9000), m.ty, interp) for s in p["same"]]
        args, kwargs = m.arguments(objs)
        tf = Tracer().run(m.entry(outers, False), *args, **kwargs)
        m.log.clear()
        g = tf.graph
        h = [r(w(g)) for w, r, _ in forms().values()]
        ins = [rng.randrange(1, 9000) for _ in g.inputs]
        res = []
        for x in [g, *h]:
            m.log.clear()
            out = interp.evaluate_graph(x, list(ins))
            res.append((core.short(str(out), 5000), [str(e) for e in m.log]))
        return [str(g), next((str(x) for x, y in zip(h, res[1:]) if y != res[0]), None)]

    for a, b in core.pmap(chk, job, range(n), limit=300):
        chk.count("programs_evaluated")
        if b is not None:
            chk.violation("evaluation", {"program": a, "read": b})
    del serde


CONF = {"Depth": 2, "Width": 2, "Bug": '"none"'}
INV = ("ReadsBackEqual", "DamageIsSeen")


def run(chk):
    import mplang  # noqa: F401
    import mplang.backends  # noqa: F401

    r = chk.spec_ok(run_tlc("MC_Serde", cfg(constants={**CONF, "Width": chk.n(2, 3) if False else 2}, invariants=INV), workers=8, timeout=1500), "MC_Serde depth 2")
    for b in ("TupleAsList", "BoolAsInt", "KeysAsText", "SameSegment", "ShortSegment", "EmptyForMissing"):
        r = run_tlc("MC_Serde", cfg(constants={**CONF, "Depth": 1, "Bug": f'"{b}"'}, invariants=INV), workers=4)
        if r.ok:
            raise RuntimeError(f"the model does not notice {b}")
    # every term of the specification, as several values
    r = run_tlc("MC_Serde", cfg(constants={**CONF, "Width": 2}, invariants=("Print1",), init="Init", next_="Whole"), workers=8, timeout=900)
    terms = sorted((p["t"] for p in r.prints if "t" in p), key=lambda t: json.dumps(t, sort_keys=True))
    chk.extra["spec_terms"] = len(terms)
    if len(terms) < 5000:
        raise RuntimeError(f"only {len(terms)} terms")
    rr = random.Random(f"{chk.seed}-C17")
    pick = terms if chk.thorough else rr.sample(terms, 2400)
    groups = [pick[i:i + 6] for i in range(0, len(pick), 6)]

    def spec_job(i):
        seed = f"{chk.seed}-C17s-{i}"
        rng = random.Random(seed)
        env = {}
        objs = [concrete(t, rng, env) for t in groups[i]]
        return seed, core.short(repr(objs), 1500), history(rng, objs, 60)

    def rand_job(i):
        seed = f"{chk.seed}-C17r-{i}"
        rng = random.Random(seed)
        objs = random_objects(rng)
        ev = history(rng, objs, chk.n(250, 1500))
        return seed, core.short(repr(objs), 1500), ev

    def share_job(i):
        seed = f"{chk.seed}-C17h-{i}"
        rng = random.Random(seed)
        objs = shares(rng)
        return seed, "shares", history(rng, objs, 60)

    out = core.pmap(chk, spec_job, range(len(groups)), limit=300)
    out += core.pmap(chk, rand_job, range(chk.n(800, 12000)), limit=300)
    out += core.pmap(chk, share_job, range(chk.n(20, 200)), limit=300)
    judge(chk, out)
    rng = random.Random(f"{chk.seed}-C17q")
    for _ in range(chk.n(1500, 20000)):
        own_equality(chk, rng)
    evaluation(chk, chk.n(400, 6000))
    bfv(chk)
    selftest(out)


def judge(chk, out):
    batch = [{"ev": ev} for _, _, ev in out]
    r, acc, prog = validate_traces("Trace_Serde", batch)
    chk.tlc(r)
    chk.traces += len(acc)
    chk.count("histories", len(batch))
    chk.count("events", sum(len(t["ev"]) for t in batch))
    chk.sample({"values": out[0][1], "events": out[0][2][:6]})
    for i, (seed, what, ev) in enumerate(out, 1):
        if i not in acc:
            at = prog.get(i, 1)
            e = ev[min(at, len(ev)) - 1]
            first = next((x["t"] for x in ev if x["e"] == "write" and x["x"] == e["x"]), None)
            chk.violation(f"serde:{e['e']}:{e['f']}", {"seed": seed, "values": what, "event": e, "written": first})


def selftest(out):
    import copy

    bad = []
    for _, _, ev in out:
        k = next((j for j, e in enumerate(ev) if e["e"] == "read" and e["t"]["kids"]), None)
        if k is None:
            continue
        for how in range(3):
            c = copy.deepcopy(ev)
            if how == 0:
                c[k]["t"]["kids"] = c[k]["t"]["kids"][:-1]
            elif how == 1:
                c[k]["t"] = ERR
            else:
                c.append({**c[k], "e": "short"})
            bad.append({"ev": c})
        if len(bad) >= 9:
            break
    if len(bad) < 3:
        raise RuntimeError("no history to corrupt")
    _, acc, _ = validate_traces("Trace_Serde", bad)
    if acc:
        raise RuntimeError("a corrupted history was accepted")
