"""C23: secure kernels connect exactly the parties of their region (spec: SpuLinks.tla, Devices.tla)."""
import copy

from vp import core, spugen
from vp.tlc import cfg, run_tlc, validate_traces

INV = ("Own", "Ends", "Clean")


def mc(reqs, bug="none"):
    return run_tlc("MC_SpuLinks", cfg(constants={"World": 3, "Devs": "<- D1", "Reqs": f"<- {reqs}", "Bug": f'"{bug}"'}, invariants=INV), workers=8, timeout=3000, heap="8g", deadlock=False)


def story(seed):
    return spugen.Story(seed).tell()


def run(chk):
    for q in ("R1", "R2", "R3") + (("R4",) if chk.thorough else ()):
        chk.spec_ok(mc(q), f"MC_SpuLinks {q}")
    for q, b in (("R1", "NoParties"), ("R3", "Shared"), ("R1", "Bare")):
        if mc(q, b).ok:
            raise RuntimeError(f"the model does not notice {b}")
    seeds = [f"C23/{chk.seed}/{i}" for i in range(chk.n(240, 4000))]
    cases = core.pmap(chk, story, seeds, procs=8)
    seeds = [s for s, c in zip(seeds, cases) if c is not None]
    cases = [c for c in cases if c is not None]
    r, acc, prog = validate_traces("Trace_SpuLinks", cases, timeout=3000)
    chk.tlc(r)
    chk.traces += len(acc)
    for t in cases:
        chk.count("mode_" + t["why"].split()[0])
        chk.count("together" if t["together"] else "in_turn")
        for q in t["reqs"]:
            chk.count("kernels", q["kernels"])
        for e in t["ev"]:
            chk.count("ev_" + e["k"])
        if t["together"] and len({e["c"] for e in t["ev"] if e["k"] == "link"}) > 1:
            chk.count("requests_linking_at_once")
    chk.sample({"seed": seeds[0], **{k: cases[0][k] for k in ("ids", "members", "cfgs")}, "reqs": [q["ops"] for q in cases[0]["reqs"]], "ev": cases[0]["ev"][:8]})
    for i, t in enumerate(cases, 1):
        if i not in acc:
            at = prog.get(i)
            chk.violation(f"kernel:{t['why'].split()[0]}", {"seed": seeds[i - 1], **{k: t[k] for k in ("ids", "members", "cfgs")}, "request": at, "reqs": t["reqs"], "why": t["why"]})
    selftest(cases, acc)
    chk.count("spawn_orders", len(spawn_orders(chk)))


def spawn_orders(chk):
    """With engine links of their own (brpc), the first kernels of two requests in either order at two workers: whose links pair up?"""
    import itertools

    import mplang.backends.channel  # noqa: F401
    import spu.libspu.link as link
    from mplang.backends.simp_worker import WorkerInfra
    from mplang.backends.spu_state import SPUState
    from mplang.dialects import spu

    tried = []
    for o0, o1 in itertools.product(itertools.permutations("AB"), repeat=2):
        link._MEM.clear()
        ids = {}
        for r, order in enumerate((o0, o1)):
            infra = WorkerInfra(rank=r, world_size=2, communicator=None, store=None, handlers={}, spu_endpoints={0: "e0", 1: "e1"})
            for q in order:
                rt, _ = SPUState(infra=infra).get_or_create(r, 2, spu.SPUConfig(), spu_endpoints=["e0", "e1"])
                ids[q, r] = rt.link.id
        tried.append((o0, o1))
        for q in "AB":
            if ids[q, 0] != ids[q, 1]:
                what = "brpc:spawn-order" if o0 != o1 and ids[q, 0] == ids["B" if q == "A" else "A", 1] else "brpc:links"
                chk.violation(what, {"orders": [o0, o1], "ids": {f"{a}@{b}": v for (a, b), v in ids.items()}})
    return tried


def selftest(cases, acc):
    """Altered recordings must not be accepted."""
    bad = []

    def add(what, t, f):
        c = copy.deepcopy(t)
        f(c)
        bad.append({**c, "why": what})
    kinds = {}
    for n, t in enumerate(cases, 1):
        if n not in acc or len(bad) > 60:
            continue
        for i, e in enumerate(t["ev"]):
            if e["k"] == "link" and kinds.setdefault("link", 0) < 6:
                kinds["link"] += 1
                add("n", t, lambda c: c["ev"][i].update(n=e["n"] + 1))
                add("pos", t, lambda c: c["ev"][i].update(pos=(e["pos"] + 1) % e["n"]))
                add("cfg", t, lambda c: c["ev"][i].update(cfg=["X", "FM64"]))
            if e["k"] == "recv" and kinds.setdefault("recv", 0) < 8:
                kinds["recv"] += 1
                add("peer", t, lambda c: c["ev"][i].update(peer=e["r"]))
                add("content", t, lambda c: c["ev"][i].update(m="zz"))
                add("lost", t, lambda c: c["ev"].pop(i))
            if e["k"] == "send" and kinds.setdefault("send", 0) < 5:
                kinds["send"] += 1
                add("mixed", t, lambda c: c["ev"].append({**e, "k": "other", "c": 0}))
        for j, q in enumerate(t["reqs"]):
            if q["res"] and kinds.setdefault("res", 0) < 5:
                kinds["res"] += 1
                add("value", t, lambda c: c["reqs"][j]["res"][0]["v"].append(1))
                add("ranks", t, lambda c: c["reqs"][j]["res"][0]["ranks"].append(9))
    if len(kinds) < 4 and any(e["k"] == "send" for t in cases for e in t["ev"]):
        raise RuntimeError(f"nothing to alter: {kinds}")
    _, a2, _ = validate_traces("Trace_SpuLinks", bad, timeout=2000)
    if a2:
        raise RuntimeError(f"altered recordings accepted: {[bad[i - 1]['why'] for i in a2][:5]}")
