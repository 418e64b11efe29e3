"""C22: cluster descriptions and the device of a computation (spec: Cluster.tla, Devices.tla)."""
import copy
import json
import random

from vp import core, devcheck
from vp.tlc import TLCError, cfg, run_tlc, validate_traces

KINDS = {"PPU": ["PPU", "ppu", "Ppu"], "SPU": ["SPU", "spu", "Spu"], "TEE": ["TEE", "tee", "Tee"], "?": ["XPU", "", "GPU"]}
NAMES = ["a", "b", "n0", "n1", "node 3", "é", "", "0", "A", "a "]


def blank(form, nodes, devs):
    return {"form": form, "nodes": nodes, "devs": devs, "ok": False, "names": [], "ends": [], "mem": [], "sorted": [], "again": False, "rest": False}


def report(e, c, ids, given=None, refuse=(Exception,)):
    """What an accepted cluster says about itself."""
    from mplang.libs.device import ClusterSpec

    n = c.world_size
    e["names"] = [c.get_node_by_rank(r).name for r in range(n)]
    e["mem"] = [[m.rank for m in c.get_device(d).members] for d in ids]
    e["sorted"] = [list(c.get_device(d).member_ranks) for d in ids]
    back = ClusterSpec.from_dict(copy.deepcopy(c.to_dict()))
    text = ClusterSpec.from_dict(json.loads(json.dumps(c.to_dict())))
    e["again"] = back == c and text == c and back.to_dict() == c.to_dict() and list(back.devices) == list(c.devices)
    e["rest"] = c.endpoints == [c.get_node_by_rank(r).endpoint for r in range(n)] and all(c.get_node(x).name == x for x in c.nodes) \
        and sorted(d.name for k in {x.kind.lower() for x in c.devices.values()} for d in c.get_devices_by_kind(k)) == sorted(c.devices)
    if given:
        for r, x in enumerate(given["nodes"]):
            nd = c.get_node_by_rank(r)
            ri, want = nd.runtime_info, x.get("runtime_info", {})
            got = ri.to_dict()
            e["rest"] = e["rest"] and nd.endpoint == x["endpoint"] and all(got[k] == v for k, v in want.items())
        e["rest"] = e["rest"] and c.cluster_id == given.get("cluster_id", c.cluster_id)
        for d, x in given["devices"].items():
            e["rest"] = e["rest"] and c.devices[d].kind == x["kind"] and c.devices[d].config == x.get("config", {})


def describe(rng):
    """A random description: consistent, or with one or more inconsistencies."""
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 4, 6]))
    devs = []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        k = rng.choice(["PPU", "PPU", "SPU", "TEE"])
        devs.append({"kind": k, "members": [rng.choice(names)] if k != "SPU" else rng.sample(names, rng.randrange(1, len(names) + 1))})
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        z = rng.choice(["node", "member", "unknown", "none", "two", "kind", "nonode"])
        if z == "node":
            names.insert(rng.randrange(len(names) + 1), rng.choice(names))
        elif z == "nonode":
            names.pop(rng.randrange(len(names)))
        if not names:
            names = ["a"]
        if not devs:
            continue
        d = rng.choice(devs)
        if z == "member" and d["members"]:
            d["members"].insert(rng.randrange(len(d["members"]) + 1), rng.choice(d["members"]))
        elif z == "unknown":
            d["members"].insert(rng.randrange(len(d["members"]) + 1), rng.choice(["zz", *NAMES]))
        elif z == "none":
            d["members"].clear()
        elif z == "two":
            d["members"].append(rng.choice(names))
        elif z == "kind":
            d["kind"] = rng.choice(["PPU", "TEE", "SPU", "?"])
    return names, devs


def listed(rng, names, devs):
    """Give a description to from_dict."""
    from mplang.libs.device import ClusterSpec

    ids = rng.sample(["P0", "P1", "S", "T", "x y", "", "alice", "0"], len(devs))
    conf = {"nodes": [{"name": n, "endpoint": rng.choice([f"localhost:{i}", f"http://h{i}:1", ""])} for i, n in enumerate(names)], "devices": {}}
    for x in conf["nodes"]:
        if rng.random() < 0.3:
            x["rank"] = rng.choice([0, 1, 5, "x"])              # documented as ignored
        if rng.random() < 0.5:
            x["runtime_info"] = rng.choice([{}, {"version": "1", "platform": "p"}, {"version": "2", "op_bindings": {"a.b": "k"}, "zone": [1, {"q": None}]}])
    for i, d in zip(ids, devs):
        conf["devices"][i] = {"kind": rng.choice(KINDS[d["kind"]]), "members": list(d["members"])}
        if rng.random() < 0.5:
            conf["devices"][i]["config"] = rng.choice([{}, {"protocol": "SEMI2K", "field": "FM64"}, {"x": [1, 2]}])
    if rng.random() < 0.5:
        conf["cluster_id"] = rng.choice(["c", "é", ""])
    e = blank("list", names, devs)
    before = copy.deepcopy(conf)
    try:
        c = ClusterSpec.from_dict(conf)
        e["ok"] = True
    except (ValueError, KeyError) as x:
        e["why"] = repr(x)[:200]
        return e
    report(e, c, ids, before)
    return e


def built(rng, names, devs):
    """Build the description from objects, ranks and keys possibly wrong."""
    from mplang.libs.device.cluster import ClusterSpec, Device, Node, RuntimeInfo

    info = lambda: RuntimeInfo(version=rng.choice(["1", "N/A"]), platform="p", op_bindings=rng.choice([{}, {"a": "b"}]), extra=rng.choice([{}, {"z": 1}]))
    order = list(range(len(names)))
    rng.shuffle(order)
    ranks = list(range(len(names)))
    z = rng.random()
    if z < 0.15:
        ranks[rng.randrange(len(ranks))] = rng.choice([-1, 0, 1, len(ranks), 7])
    elif z < 0.25:
        ranks = [r + 1 for r in ranks]
    nodes, en = {}, []
    for i in order:
        nd = Node(name=names[i], rank=ranks[i], endpoint=f"e{i}", runtime_info=info())
        key = names[i] if rng.random() < 0.95 else rng.choice(NAMES)
        if key in nodes:
            continue
        nodes[key] = nd
        en.append({"key": key, "name": nd.name, "rank": nd.rank})
    devices, ed = {}, []
    ids = rng.sample(["P0", "P1", "S", "T", "x y", "", "alice", "0"], len(devs))
    for i, d in zip(ids, devs):
        ms = []
        for m in d["members"]:
            have = [x for x in nodes.values() if x.name == m]
            if have and rng.random() < 0.93:
                ms.append(have[0])
            else:
                ms.append(Node(name=m, rank=rng.choice([7, 8, 9]), endpoint="e", runtime_info=info()))
        name = i if rng.random() < 0.95 else "other"
        devices[i] = Device(name=name, kind=rng.choice(KINDS[d["kind"]]), members=ms, config={"a": 1})
        ed.append({"key": i, "name": name, "kind": d["kind"], "members": [{"name": m.name, "rank": m.rank} for m in ms]})
    e = blank("objects", en, ed)
    try:
        c = ClusterSpec(cluster_id="c", nodes=nodes, devices=devices)
        e["ok"] = True
    except (ValueError, KeyError) as x:
        e["why"] = repr(x)[:200]
        return e
    report(e, c, ids)
    return e


def simple(rng):
    """The convenience constructor."""
    from mplang.libs.device import ClusterSpec

    n = rng.randrange(1, 6)
    ppu, spu = rng.choice([(True, True), (True, False), (False, True)])
    k = rng.choice([None, *range(1, n + 1)])
    ends = rng.choice([None, [f"x{i}" for i in range(n)]])
    c = ClusterSpec.simple(n, endpoints=ends, spu_world_size=k, enable_ppu_device=ppu, enable_spu_device=spu, spu_protocol="CHEETAH")
    names = [c.get_node_by_rank(r).name for r in range(n)]
    devs = [{"kind": d.kind.upper(), "members": [m.name for m in d.members]} for d in c.devices.values()]
    e = blank("list", names, devs)
    e["ok"] = True
    report(e, c, list(c.devices))
    want = ([(f"P{i}", [i]) for i in range(n)] if ppu else []) + ([("SP0", list(range(k or n)))] if spu else [])
    e["rest"] = e["rest"] and [(d, [m.rank for m in c.devices[d].members]) for d in c.devices] == want and (ends is None or c.endpoints == ends) \
        and all(c.devices[d].kind.upper() == ("SPU" if d == "SP0" else "PPU") for d in c.devices)
    return e


def replay(chk, p):
    """A description enumerated by TLC, given to the code."""
    from mplang.libs.device.cluster import ClusterSpec, Device, Node, RuntimeInfo

    d = p["devs"][0]
    try:
        if p["form"] == "listed":
            c = ClusterSpec.from_dict({"nodes": [{"name": x, "endpoint": f"e{i}"} for i, x in enumerate(p["nodes"])], "devices": {"D": {"kind": d["kind"], "members": d["members"]}}})
        else:
            info = RuntimeInfo(version="1", platform="p")
            made = {}
            mk = lambda n, r: made.setdefault((n, r), Node(name=n, rank=r, endpoint=f"{n}{r}", runtime_info=info))
            c = ClusterSpec(cluster_id="c", nodes={x["key"]: mk(x["name"], x["rank"]) for x in p["nodes"]},
                            devices={d["key"]: Device(name=d["name"], kind=d["kind"], members=[mk(m["name"], m["rank"]) for m in d["members"]])})
        ok = True
    except (ValueError, KeyError):
        ok = False
    if p["open"] and ok != p["ok"]:
        return None
    if ok != p["ok"]:
        return f"{'accepted' if ok else 'refused'}, but {'in' if ok else ''}consistent"
    if ok and p["form"] == "listed" and [m.rank for m in c.devices["D"].members] != p["ranks"]:
        return f"members at ranks {[m.rank for m in c.devices['D'].members]}"
    if ok and ClusterSpec.from_dict(c.to_dict()) != c:
        return "differs after conversion to a dictionary and back"
    return None


def run(chk):
    const = {"MaxNodes": 3, "MaxMembers": chk.n(2, 3), "Bug": '"none"', "Emit": "TRUE"}
    r = chk.spec_ok(run_tlc("MC_Cluster", cfg(constants=const, invariants=("Ranked", "Out")), workers=8, timeout=1500), "MC_Cluster")
    for b in ("DuplicateNodes", "UnknownMembers", "AnyCount", "DuplicateMembers", "AnyRanks"):
        try:
            if run_tlc("MC_Cluster", cfg(constants={**const, "Bug": f'"{b}"', "Emit": "FALSE"}, invariants=("Ranked",)), workers=8).ok:
                raise RuntimeError(f"the model does not notice {b}")
        except TLCError as e:          # a rank or position that does not exist cannot be computed
            if "CHOOSE" not in str(e):
                raise
    for p in r.prints:
        why = replay(chk, p)
        chk.count("enumerated")
        if why:
            chk.violation(f"description:{p['form']}:{why.split()[0]}", {"description": p, "why": why})

    def job(i):
        seed = f"{chk.seed}-C22-{i}"
        rng = random.Random(seed)
        ev = []
        for _ in range(40):
            z = rng.random()
            ev.append(simple(rng) if z < 0.1 else (listed if z < 0.6 else built)(rng, *describe(rng)))
        return seed, {"ev": ev}
    out = core.pmap(chk, job, range(chk.n(50, 2000)))
    batch, seeds = [b for _, b in out], [s for s, _ in out]
    r, acc, prog = validate_traces("Trace_Cluster", batch)
    chk.tlc(r)
    chk.traces += len(acc)
    for t in batch:
        for e in t["ev"]:
            chk.count(f"{e['form']}_{'accepted' if e['ok'] else 'refused'}")
    chk.sample({"seed": seeds[0], "events": batch[0]["ev"][:3]})
    for i, t in enumerate(batch, 1):
        if i not in acc:
            e = t["ev"][min(prog.get(i) or 1, len(t["ev"])) - 1]
            chk.violation(f"description:{e['form']}", {"seed": seeds[i - 1], "event": e})
    bad = []
    for t in batch[:20]:
        for j, e in enumerate(t["ev"][:8]):
            if any(d["kind"] == "?" for d in e["devs"]):
                continue
            c = copy.deepcopy(t)
            if e["ok"] and e["mem"] and len(bad) % 3:
                c["ev"][j]["mem"][0].append(9)
            elif e["ok"] and len(bad) % 2:
                c["ev"][j]["again"] = False
            else:
                c["ev"][j]["ok"] = not e["ok"]
            bad.append(c)
    _, got, _ = validate_traces("Trace_Cluster", bad)
    if got or len(bad) < 20:
        raise RuntimeError(f"a corrupted record was accepted: {bad[min(got) - 1]['ev'][:8] if got else len(bad)}")
    cases, seeds = devcheck.cases(chk, chk.n(110, 3000), "C22", infer=0.9, steps=12)
    acc = devcheck.decide(chk, cases, seeds, "inference")
    devcheck.selftest(cases, acc)
