"""C18: program artifacts run only if intact and compatible (spec: Artifact.tla)."""
from vp import sched

sched.install()

import copy
import hashlib
import io
import json
import os
import random
import tarfile
import tempfile
import threading

from vp import commcheck, core, simpgen, simprun
from vp.tlc import cfg, run_tlc, validate_traces


class Opaque:
    """A setting nobody can write down."""


def graph_id(ids, payload):
    return ids.setdefault(json.dumps(payload, sort_keys=True), len(ids) + 1)


def digest(payload):
    return hashlib.sha256(json.dumps(payload, sort_keys=True, separators=(",", ":")).encode()).hexdigest()


def tree(graph):
    """Operations of a graph object as the specification sees them."""
    out = []
    for op in graph.operations:
        ps = []
        a = op.attrs.get("parties")
        if a is not None:
            ps += [int(p) for p in a]
        r = op.attrs.get("routing")
        if isinstance(r, dict):
            ps += [int(x) for kv in r.items() for x in kv]
        out.append({"code": op.opcode, "ps": ps, "sub": [x for g in op.regions for x in tree(g)]})
    return out


def fields(p):
    return {"schema": p.schema_version, "kind": 1, "ins": p.signature.input_arity, "outs": p.signature.output_arity,
            "codes": list(p.required_opcodes), "world": -1 if p.required_world_size is None else p.required_world_size}


NOF = {"schema": 0, "kind": 0, "ins": 0, "outs": 0, "codes": ["-"], "world": 0}


def read(blob):
    with tarfile.open(fileobj=io.BytesIO(blob)) as tf:
        return json.loads(tf.extractfile("artifact.json").read())


def write(payload, rng):
    data = json.dumps(payload, indent=rng.choice([None, 2])).encode()
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode=rng.choice(["w", "w:gz", "w:xz", "w:bz2"])) as tf:
        info = tarfile.TarInfo("artifact.json")
        info.size = len(data)
        tf.addfile(info, io.BytesIO(data))
    return buf.getvalue()


def inner(payload):
    """The program's own fields within what is written."""
    return payload["data"] if isinstance(payload.get("data"), dict) else payload


def leaves(v, path=()):
    if isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, (*path, k))
    elif isinstance(v, list):
        for k, x in enumerate(v):
            yield from leaves(x, (*path, k))
    else:
        yield path, v


def put(v, path, x):
    for k in path[:-1]:
        v = v[k]
    v[path[-1]] = x


def all_ops(graph):
    for op in graph.operations:
        yield op
        for g in op.regions:
            yield from all_ops(g)


class Story:
    hung = False        # a program did not return: one is enough

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.ids, self.ev = {}, []
        self.problems = []
        self.m = simpgen.Machine(self.rng)

    def blank(self, e):
        return {"e": e, "src": {"captures": False, "constants": False, "writable": True}, "g": 0, "ins": 0, "outs": 0, "ops": [], "ok": False, "f": NOF, "got": NOF, "gotg": 0,
                "d": 0, "form": "", "meta": True, "nargs": 0, "kw": False, "size": 0, "did": 0, "same": True}

    def tell(self):
        rng, m = self.rng, self.m
        case = simpgen.draw(rng, disagree=False)
        case["inputs"] = case["inputs"] or []
        sim = simprun.Sim(case["world"])
        try:
            return self.on(sim, case)
        finally:
            sim.close()

    def on(self, sim, case):
        import mplang
        import mplang.edsl as el
        from mplang.edsl import serde
        from mplang.edsl.program import compute_graph_digest
        from mplang.tool import program as tool

        rng, m = self.rng, self.m
        objs = sim.inputs(m, case)
        extra = {"captures": rng.random() < 0.12, "constants": rng.random() < 0.12, "writable": rng.random() > 0.08}
        fn = m.fn(case["prog"])
        nres = len(case["prog"]["res"])
        captured = objs[0] if objs else None
        if captured is None:
            extra["captures"] = False
        imm = rng.choice([[], [], [5], ["x", 2.5]])
        spare = el.Primitive("vpc.opaque")

        @spare.def_abstract_eval
        def _ae(in_types, *, what):
            return m.mptype({"ps": [0], "vt": "i"})

        def source(*args):
            r = list(m.unpack(fn(*args[:len(objs) - int(extra["captures"])], *([captured] if extra["captures"] else [])), nres)) if not extra["captures"] else \
                list(m.unpack(fn(captured, *args[:len(objs) - 1]), nres))
            if not extra["writable"]:
                r.append(spare.bind(what=rng.choice([Opaque(), lambda: 0, {1, Opaque()}])))
            if extra["constants"]:
                r.insert(rng.randrange(len(r) + 1), rng.choice([3, "s", 2.5]))
            return r

        given = objs[1:] if extra["captures"] else list(objs)
        with sim.interp:
            try:
                traced = el.trace(source, *given, *imm)
            except simpgen.BadProgram:
                return None
        # what is really captured and constant
        src = {"captures": bool(traced.captured), "constants": bool(traced.out_imms), "writable": extra["writable"]}
        e = self.blank("compile")
        e.update(src=src, ins=len(traced.graph.inputs), outs=len(traced.graph.outputs), ops=tree(traced.graph))
        try:
            prog = tool.compile_program(traced) if rng.random() < 0.5 else tool.compile_program(source, *given, *imm, context=sim.interp)
            if src["captures"] or src["constants"] or not src["writable"]:
                e["ok"] = True
                self.ev.append(e)
                return self.ev
        except (ValueError, TypeError) as x:
            e["why"] = repr(x)[:120]
            self.ev.append(e)
            return self.ev
        payload0 = serde.to_json(traced.graph)
        e["g"] = graph_id(self.ids, payload0)
        e.update(ok=True, f=fields(prog), gotg=graph_id(self.ids, serde.to_json(prog.graph)), d=e["g"] if prog.graph_digest == digest(payload0) else 0)
        self.ev.append(e)
        blobs = [tool.pack(prog), tool.pack(prog, compress=False)]
        with tempfile.TemporaryDirectory(prefix="vp-c18-") as d:
            where = rng.choice(["p.tar.gz", "p.tar", "odd name é"])
            tool.pack_to_path(prog, os.path.join(d, where), compress=rng.random() < 0.5)
            blobs.append(open(os.path.join(d, where), "rb").read())
            self.unpack(prog, blobs[-1], tool, serde, path=os.path.join(d, where))
        loaded = None
        for _ in range(2):
            loaded = self.unpack(prog, rng.choice(blobs), tool, serde) or loaded
        want = None
        if loaded is not None:
            want = self.expect(sim, case, mplang, traced, [*given, *imm])
            if want is None:
                return self.ev
            self.run(sim, case, mplang, loaded, given, want)
        for _ in range(rng.choice([2, 4, 8])):
            payload = read(blobs[0])
            got = self.alter(prog, payload, serde, traced.graph, tool)
            if got is not None and rng.random() < 0.5:
                self.run(sim, case, mplang, got, given, want, altered=True)
        for _ in range(rng.choice([5, 20, 40])):
            b = bytearray(rng.choice(blobs))
            z = rng.random()
            if z < 0.3:
                del b[rng.randrange(len(b)):]
            elif z < 0.85:
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            elif z < 0.93:
                i = rng.randrange(len(b))
                del b[i:i + rng.choice([1, 2, 512])]
            else:
                i = rng.randrange(len(b))
                b[i:i] = bytes(rng.choice([1, 512]))
            self.odd(bytes(b), tool, serde)
        for _ in range(rng.choice([5, 20])):
            payload = read(blobs[0])
            path, v = rng.choice(list(leaves(payload)))
            if path[-1] in ("required_world_size", "graph_digest"):
                continue
            put(payload, path, rng.choice([None, v + 1 if isinstance(v, int) else v * 2 if isinstance(v, str) and v else "q", rng.choice([x for _, x in leaves(payload)])]))
            if path[-1] in ("created_at", "name", "mplang_version") and len(path) <= 3:
                continue
            self.odd(write(payload, rng), tool, serde)
        self.container(prog, blobs, tool)
        if loaded is not None:
            self.small(sim, case, mplang, loaded, given, want)
        return self.ev

    # ---------------------------------------------------------------- reading
    def unpack(self, prog, blob, tool, serde, path=None):
        p = read(blob)
        q = inner(p)
        e = self.blank("unpack")
        g = graph_id(self.ids, serde.to_json(serde.from_json(q["graph"])))
        e.update(form="plain", g=graph_id(self.ids, q["graph"]), ins=len(prog.graph.inputs), outs=len(prog.graph.outputs), ops=tree(prog.graph), d=g if q["graph_digest"] == digest(q["graph"]) else 0,
                 f=fields(prog))
        got = None
        try:
            got = tool.unpack_path(path) if path else tool.unpack(blob)
            e.update(ok=True, gotg=graph_id(self.ids, serde.to_json(got.graph)), got=fields(got),
                     meta=(got.name, got.created_at, got.mplang_version, got.graph_digest) == (prog.name, prog.created_at, prog.mplang_version, prog.graph_digest))
        except Exception as x:  # noqa: BLE001
            e["why"] = repr(x)[:200]
        self.ev.append(e)
        return got

    def odd(self, blob, tool, serde):
        e = self.blank("unpack")
        e["form"] = "odd"
        try:
            got = tool.unpack(blob)
            e.update(ok=True, gotg=graph_id(self.ids, serde.to_json(got.graph)), got=fields(got))
        except Exception as x:  # noqa: BLE001
            e["why"] = repr(x)[:200]
        self.ev.append(e)

    def alter(self, prog, payload, serde, graph, tool):
        """Change one or two fields; the digest may be made to fit."""
        rng = self.rng
        q = inner(payload)
        f, kind = fields(prog), 1
        f["codes"] = list(f["codes"])
        g2 = serde.from_json(q["graph"])
        dg = None
        for what in rng.sample(["graph", "graph", "ins", "outs", "codes", "digest", "world", "schema", "kind", "order", "meta"], rng.choice([1, 1, 1, 2, 3])):
            if what == "graph":
                ops = list(all_ops(g2))
                z = rng.choice(["attr", "code", "drop", "parties", "routing", "output", "input", "swap"])
                if z == "attr":
                    c = [o for o in ops if "c" in o.attrs]
                    if c:
                        rng.choice(c).attrs["c"] += 1
                elif z == "code" and ops:
                    rng.choice(ops).opcode = rng.choice(["vpc.other", "simp.shuffle", *[o.opcode for o in ops]])
                elif z == "parties":
                    c = [o for o in ops if o.attrs.get("parties")]
                    if c:
                        o = rng.choice(c)
                        ps = list(o.attrs["parties"])
                        ps[rng.randrange(len(ps))] = rng.choice([0, 1, 3, 6])
                        o.attrs["parties"] = type(o.attrs["parties"])(ps)
                elif z == "routing":
                    c = [o for o in ops if isinstance(o.attrs.get("routing"), dict)]
                    if c:
                        o = rng.choice(c)
                        o.attrs["routing"] = {**o.attrs["routing"], rng.choice([0, 2, 5]): rng.choice([0, 1, 5])}
                elif z == "output" and g2.outputs:
                    if rng.random() < 0.5:
                        g2.outputs.append(rng.choice(list(g2.values.values())))
                    else:
                        g2.outputs.pop(rng.randrange(len(g2.outputs)))
                elif z == "input":
                    g2.add_input(f"extra{rng.randrange(99)}", self.m.mptype({"ps": [0], "vt": "i"}))
                elif z == "swap":
                    c = [o for o in ops if len(o.inputs) > 1 and o.inputs[0] is not o.inputs[-1]]
                    if c:
                        rng.choice(c).inputs.reverse()
                elif z == "drop" and g2.operations and not any(v in g2.outputs for v in g2.operations[-1].outputs):
                    g2.operations.pop()
            elif what in ("ins", "outs"):
                f[what] = max(0, f[what] + rng.choice([-1, 1, 2]))
            elif what == "codes":
                z = rng.random()
                if z < 0.4 and f["codes"]:
                    f["codes"].pop(rng.randrange(len(f["codes"])))
                elif z < 0.7:
                    f["codes"].append(rng.choice(["vpc.other", *f["codes"]]))
                elif f["codes"]:
                    f["codes"][rng.randrange(len(f["codes"]))] = "vpc.other"
            elif what == "order":
                rng.shuffle(f["codes"])
            elif what == "digest":
                dg = rng.choice(["", "0" * 64, "fit", "fit"])
            elif what == "world":
                f["world"] = rng.choice([-1, 0, 1, 2, 3, 4, 7])
            elif what == "schema":
                f["schema"] = rng.choice([0, 2, 99])
            elif what == "kind":
                kind = 0
            elif what == "meta":
                q["name"] = rng.choice(["other", None, "é"])
        q["graph"] = serde.to_json(g2)
        f["kind"] = kind
        q["schema_version"], q["required_world_size"], q["required_opcodes"] = f["schema"], None if f["world"] == -1 else f["world"], f["codes"]
        q["signature"] = {"kind": q["signature"]["kind"] if kind else rng.choice(["flat_list_v1", "", None, "pytree"]), "input_arity": f["ins"], "output_arity": f["outs"]}
        if dg is not None:
            q["graph_digest"] = digest(q["graph"]) if dg == "fit" else dg
        e = self.blank("unpack")
        gid = graph_id(self.ids, q["graph"])
        e.update(form="plain", g=gid, ins=len(g2.inputs), outs=len(g2.outputs), ops=tree(g2), f=f, d=-1 if q["graph_digest"] == "" else gid if q["graph_digest"] == digest(q["graph"]) else 0)
        got = None
        try:
            got = tool.unpack(write(payload, rng))
            e.update(ok=True, gotg=graph_id(self.ids, serde.to_json(got.graph)), got=fields(got))
        except Exception as x:  # noqa: BLE001
            e["why"] = repr(x)[:200]
        self.ev.append(e)
        return got

    def container(self, prog, blobs, tool):
        """Containers without the program, or too large a one."""
        rng = self.rng
        good = json.dumps(read(blobs[0])).encode()

        def tar(name, kind=tarfile.REGTYPE, data=good):
            buf = io.BytesIO()
            with tarfile.open(fileobj=buf, mode="w:gz") as tf:
                info = tarfile.TarInfo(name)
                info.type = kind
                if kind == tarfile.REGTYPE:
                    info.size = len(data)
                else:
                    info.linkname = "other"
                tf.addfile(info, io.BytesIO(data) if kind == tarfile.REGTYPE else None)
            return buf.getvalue()

        for b, lim in [(tar("artifact"), None), (tar("artifact.json", tarfile.SYMTYPE), None), (tar("artifact.json", tarfile.DIRTYPE), None), (tar("x/artifact.json"), None), (b"", None), (good, None),
                       (tar("artifact.json"), len(good) - 1), (tar("artifact.json"), 0), (tar("artifact.json", data=b"[1]"), None), (tar("artifact.json", data=b"null"), None),
                       (tar("artifact.json", data=json.dumps(inner(read(blobs[0]))["graph"]).encode()), None)]:
            try:
                tool.unpack(b, **({} if lim is None else {"max_artifact_json_bytes": lim}))
                self.problems.append(f"a container without a program was accepted: {b[:60]!r} limit {lim}")
            except Exception:  # noqa: BLE001
                pass
        try:
            tool.unpack(tar("artifact.json"), max_artifact_json_bytes=len(good))
        except Exception as x:  # noqa: BLE001
            self.problems.append(f"a program of exactly the permitted size was refused: {x!r}")
        i = tool.inspect_artifact(blobs[0])
        if (i["name"], i["graph_digest"], i["required_world_size"], sorted(i["required_opcodes"]), i["graph"]["ops"], i["graph"]["inputs"], i["graph"]["outputs"]) != (
                prog.name, prog.graph_digest, prog.required_world_size, sorted(prog.required_opcodes), len(prog.graph.operations), len(prog.graph.inputs), len(prog.graph.outputs)):
            self.problems.append(f"the inspection report differs from the program: {i}")

    # ---------------------------------------------------------------- running
    def values(self, sim, res):
        out = []
        for o in res:
            dv = o.runtime_obj
            out.append([simprun.norm(None if u is None else sim.stores[r].get(u)) for r, u in enumerate(dv.values)])
        return out

    def expect(self, sim, case, mplang, traced, args):
        try:
            return self.values(sim, self.m.unpack(mplang.evaluate(traced, *args, context=sim.interp), len(traced.graph.outputs)))
        except Exception as e:
            if not core.is_repo_failure(e):
                raise
            return None                     # what the program means is not known

    def run(self, sim, case, mplang, prog, args, want, altered=False):
        rng = self.rng
        if altered and (prog.required_world_size or 0) > case["world"] and prog.signature.input_arity == len(args):
            self.execute(sim, case["world"], mplang, prog, list(args), {}, want)
        for z in (["bad"] if altered else rng.sample(["bad", "bad", "kw"], 2) + ["good"]):
            a, kw = list(args), {}
            if z == "bad":
                if a and rng.random() < 0.5:
                    a.pop(rng.randrange(len(a)))
                else:
                    a.append(rng.choice([*args, 3]))
                if altered and len(a) == prog.signature.input_arity:
                    return
            elif z == "kw":
                if a and rng.random() < 0.5:
                    kw = {"x": a.pop()}
                else:
                    kw = {"context_": 1}
            self.execute(sim, case["world"], mplang, prog, a, kw, want)

    def execute(self, sim, size, mplang, prog, a, kw, want):
        e = self.blank("run")
        before = len(sim.log) + len(sim.w.wire) + len(sim.w.truths)
        e.update(f=fields(prog), ops=tree(prog.graph), nargs=len(a), kw=bool(kw), size=size, same=False)
        try:
            if self.rng.random() < 0.5:
                res = mplang.evaluate(prog, *a, context=sim.interp, **kw)
            else:
                with sim.interp:
                    res = mplang.evaluate(prog, *a, **kw)
            e["ok"] = True
            e["same"] = want is None or self.values(sim, res) == want
        except Exception as x:  # noqa: BLE001
            e["why"] = repr(x)[:200]
        e["did"] = len(sim.log) + len(sim.w.wire) + len(sim.w.truths) - before
        self.ev.append(e)

    def small(self, sim, case, mplang, prog, given, want):
        """The program on clusters with fewer parties, over the same data there."""
        m = self.m
        idx = list(range(len(case["inputs"])))[-len(given):] if given else []
        for size in range(1, case["world"]):
            if Story.hung:
                return
            if prog.required_world_size <= size and self.rng.random() < 0.5:
                continue
            other = simprun.Sim(size)
            hung = False
            try:
                cut = {"inputs": [{**case["inputs"][k], "vals": case["inputs"][k]["vals"][:size]} for k in idx]}
                args, done = other.inputs(m, cut), []
                # parties that are not there may be waited for without end
                n = len(self.ev)
                t = threading.Thread(target=lambda: done.append(self.execute(other, size, mplang, prog, args, {}, [v[:size] for v in want])), daemon=True)
                t.start()
                t.join(20)
                if t.is_alive():
                    hung = Story.hung = True
                    e = self.blank("run")
                    e.update(f=fields(prog), ops=tree(prog.graph), nargs=len(args), size=size, ok=True, same=False, did=1, why="did not return")
                    del self.ev[n:]
                    self.ev.append(e)
                    return
            finally:
                if not hung:
                    other.close()


def run(chk):
    import mplang  # noqa: F401
    import mplang.backends  # noqa: F401

    commcheck.patch_httpx()
    inv = ("Faithful", "Intact", "OneAlteration", "Fits")
    chk.spec_ok(run_tlc("MC_Artifact", cfg(constants={"MaxAlter": chk.n(2, 3), "Bug": '"none"'}, invariants=inv), workers=8, timeout=3000, heap="8g"), "MC_Artifact")
    for b in ("AcceptCaptures", "NoRegions", "Largest", "NoDigest", "SomeCodes", "NoSchema", "AtMost", "AnyCluster", "AnyArguments"):
        if run_tlc("MC_Artifact", cfg(constants={"MaxAlter": 1, "Bug": f'"{b}"'}, invariants=inv), workers=8).ok:
            raise RuntimeError(f"the model does not notice {b}")

    def job(i):
        seed = f"{chk.seed}-C18-{i}"
        s = Story(seed)
        return seed, s.tell(), s.problems

    batch, seeds = [], []
    for seed, ev, problems in core.pmap(chk, job, range(chk.n(600, 20000)), limit=180):
        for p in problems:
            chk.violation(f"container:{p[:50]}", {"seed": seed, "problem": p})
        if ev:
            batch.append({"ev": ev})
            seeds.append(seed)
    r, acc, prog = validate_traces("Trace_Artifact", batch)
    chk.tlc(r)
    chk.traces += len(acc)
    chk.count("sources", len(batch))
    for t in batch:
        for e in t["ev"]:
            chk.count(f"{e['e']}_{'ok' if e['ok'] else 'refused'}")
    chk.sample({"seed": seeds[0], "events": batch[0]["ev"][:6]})
    for i, t in enumerate(batch, 1):
        if i not in acc:
            at = prog.get(i)
            e = t["ev"][min(at, len(t["ev"])) - 1] if at else {"e": "history"}
            chk.violation(f"artifact:{e['e']}:{e.get('form', '')}", {"seed": seeds[i - 1], "event": e, "compiled": t["ev"][0]})
    selftest(batch)


def selftest(batch):
    bad = []
    for t in batch:
        for e in ("unpack", "run", "compile"):
            k = next((j for j, x in enumerate(t["ev"]) if x["e"] == e and x["ok"] and x["form"] != "odd"), None)
            if k is not None:
                c = copy.deepcopy(t)
                x = c["ev"][k]
                if e == "run":
                    x["same"] = False
                elif e == "compile":
                    x["f"]["world"] += 1
                else:
                    x["gotg"] += 1
                bad.append(c)
            k = next((j for j, x in enumerate(t["ev"]) if x["e"] == e and not x["ok"] and x["form"] != "odd"), None)
            if k is not None:
                c = copy.deepcopy(t)
                c["ev"][k]["ok"] = True
                bad.append(c)
        if len(bad) > 40:
            break
    _, acc, _ = validate_traces("Trace_Artifact", bad)
    if acc or len(bad) < 6:
        raise RuntimeError(f"a corrupted history was accepted: {len(acc)} of {len(bad)}")
