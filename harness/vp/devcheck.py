"""Judging recorded device cases with Trace_Devices (C21, C22)."""
import copy
import json

from vp import core, devgen
from vp.tlc import cfg, run_tlc, validate_traces

INV = ("Confidential", "Network", "Arrived", "OnePair")


def model(chk):
    for cl in ("C1", "C2"):
        chk.spec_ok(run_tlc("MC_Devices", cfg(constants={"Cl": f"<- {cl}", "MaxMoves": chk.n(4, 5), "MaxCtx": 2, "Bug": '"none"'}, invariants=INV), workers=8, timeout=3000, heap="8g"), f"MC_Devices {cl}")
    for b in ("SessionMix", "StaleSession", "NoAttest", "WrongShare", "Broadcast", "PlainTee"):
        if run_tlc("MC_Devices", cfg(constants={"Cl": "<- C1", "MaxMoves": 3, "MaxCtx": 2, "Bug": f'"{b}"'}, invariants=INV), workers=8).ok:
            raise RuntimeError(f"the model does not notice {b}")


def decide(chk, cases, seeds, sig):
    """Trace validation of recorded cases; a rejected group is a violation."""
    r, acc, prog = validate_traces("Trace_Devices", cases, timeout=3000)
    chk.tlc(r)
    chk.traces += len(acc)
    for t in cases:
        for g in t["groups"]:
            for o in g["ops"]:
                chk.count(f"{o['op']}_{o['out']}")
            for e in g["ev"]:
                chk.count(f"{e['k']}_{e['op']}")
    chk.sample({"seed": seeds[0], "cluster": {k: cases[0][k] for k in ("ids", "kinds", "members")}, "groups": [g["ops"] for g in cases[0]["groups"]][:4]})
    for i, t in enumerate(cases, 1):
        if i not in acc:
            at = prog.get(i)
            g = t["groups"][min(at, len(t["groups"])) - 1] if at else {"ops": []}
            chk.violation(f"{sig}:{'+'.join(sorted({o['op'] for o in g['ops']}))}", {"seed": seeds[i - 1], "cluster": {k: t[k] for k in ("ids", "kinds", "members")}, "group": g, "why": t["why"]})
    return acc


def corrupt(cases, acc):
    """Histories that must not be accepted: one recorded fact altered in each."""
    bad = []

    def add(what, t, f):
        c = copy.deepcopy(t)
        f(c)
        bad.append({**c, "why": what})
    for n, t in enumerate(cases, 1):
        if n not in acc:
            continue
        seen = set()
        for gi, g in enumerate(t["groups"]):
            for oi, o in enumerate(g["ops"]):
                if o["out"] == "ok" and o["res"] and o["res"][0]["v"]:
                    if "v" not in seen:
                        seen.add("v")
                        add("1", t, lambda c: c["groups"][gi]["ops"][oi]["res"][0]["v"].reverse() if o["res"][0]["v"][0] != o["res"][0]["v"][1] else c["groups"][gi]["ops"][oi]["res"][0]["v"].append(1))
                        add("2", t, lambda c: c["groups"][gi]["ops"][oi]["res"][0].update(dev="?"))
                if o["out"] == "refused" and "r" not in seen and not g["fresh"]:
                    seen.add("r")
                    add("3", t, lambda c: c["groups"][gi]["ops"][oi].update(out="ok"))
            for ei, e in enumerate(g["ev"]):
                if e["k"] == "msg" and e["op"] == "share" and e["r"] != e["to"] and "s" not in seen:
                    seen.add("s")
                    add("4", t, lambda c: c["groups"][gi]["ev"][ei].update(i=[(e["i"][0] + 1) % e["i"][1], e["i"][1]]))
                    add("5", t, lambda c: c["groups"][gi]["ev"].append(dict(e, op="clear", i=[], v=[1, 2])))
                if e["k"] == "op" and e["op"] == "encrypt" and "e" not in seen and all(o["out"] == "ok" for o in g["ops"]):
                    seen.add("e")
                    add("6", t, lambda c: c["groups"][gi]["ev"][ei].update(i=[e["i"][0] + 1]))
                    add("7", t, lambda c: c["groups"][gi]["ev"][ei].update(v=[9, 9]))
                    qs = [x for x in t["groups"][gi]["ev"] if x["op"] == "attest"]
                    if qs and g["fresh"]:
                        add("8", t, lambda c: [c["groups"][gi]["ev"].remove(x) for x in qs])
                if e["k"] == "exec" and "x" not in seen:
                    seen.add("x")
                    add("9", t, lambda c: c["groups"][gi]["ev"].pop(ei))
        if len(bad) > 60:
            break
    return bad


def selftest(cases, acc):
    bad = corrupt(cases, acc)
    _, got, _ = validate_traces("Trace_Devices", bad)
    if got or len(bad) < 10:
        raise RuntimeError(f"a corrupted history was accepted: {sorted(got)[:5]} of {len(bad)}: {[bad[k - 1]["why"] for k in sorted(got)][:9]}")


def cases(chk, n, tag, **kw):
    def job(i):
        seed = f"{chk.seed}-{tag}-{i}"
        return seed, devgen.case(seed, **kw)
    out = core.pmap(chk, job, range(n), limit=180)
    return [c for _, c in out], [s for s, _ in out]
