"""C13: messages over HTTP (spec: Transport.tla)."""
from vp import sched

sched.install()

import base64
import json
import random
import threading
import time
from urllib.parse import quote

from vp import core, httpsim, valgen
from vp.tlc import cfg, run_tlc, validate_traces

CH = list("ab01 ._-~:/?#[]@!$&'()*+,;=%\"<>\\^`{|}") + ["é", "日", "%2F", "%2e", "..", "//", "./", "😀", "&amp;", "+"]
ODD = ["", ".", "..", "/", "//", "a/..", "../x", "a/../b", "./", "a/.", "%", "%25", "%2F", "%2E", "?", "?a=b", "#", "a#b", "comm", "comm/x", " ", "a ", " a", "é", "e\u0301", "A", "a", "x" * 2000, "a;b", "a:b", "http://x/y", "0", "None", "\\", "a\\b",
       "a+b", "a b", "a%20b", "~", "*"]


def key(rng):
    return rng.choice(ODD) if rng.random() < 0.5 else "".join(rng.choice(CH) for _ in range(rng.randrange(1, 9)))


def payload(rng):
    z = rng.random()
    if z < 0.2:
        return valgen.blob(rng)
    if z < 0.25:
        return bytes(rng.randrange(256) for _ in range(rng.choice([70000, 300000])))
    return valgen.value(rng, 2)


class Unsendable:
    pass


def hand(rng, serde, frm, v):
    """A correct delivery as a client of the protocol would write it: (headers, body, json)."""
    raw = isinstance(v, bytes)
    ct = rng.choice(["application/octet-stream", "application/octet-stream; charset=binary", "Application/Octet-Stream", " application/octet-stream"])
    if rng.random() < 0.6:
        h = {"Content-Type": ct.strip() if rng.random() < 0.9 else ct.strip() + ";", "X-From-Rank": str(frm)}
        if raw:
            h["X-Is-Raw-Bytes"] = "1"
            if rng.random() < 0.5:
                h["X-Serde-Format"] = "raw-bytes"
            return h, v
        if rng.random() < 0.5:
            h["X-Is-Raw-Bytes"] = "0"
        if rng.random() < 0.5:
            h["X-Serde-Format"] = "binary-container"
        return h, serde.dumps_binary(v)
    d = {"data": base64.b64encode(v).decode() if raw else serde.dumps_b64(v), "from_rank": frm}
    if raw or rng.random() < 0.5:
        d["is_raw_bytes"] = raw
    return ({"Content-Type": rng.choice(["application/json", "application/json; charset=utf-8"])} if rng.random() < 0.8 else {}), json.dumps(d).encode()


def malformed(rng, serde, frm, v):
    raw = isinstance(v, bytes)
    b = serde.dumps_binary(v)
    oct_ = {"Content-Type": "application/octet-stream"}
    ok = {**oct_, "X-From-Rank": str(frm), "X-Is-Raw-Bytes": "0", "X-Serde-Format": "binary-container"}
    js = {"Content-Type": "application/json"}
    env = {"data": serde.dumps_b64(v), "from_rank": frm, "is_raw_bytes": False}
    cut = rng.randrange(len(b))
    t = env["data"]

    def J(d):
        return js, json.dumps(d).encode()

    meta = json.dumps({"_kind": rng.choice(["nope", "_nulll", "", "os.system", "mplang.Grap"]), "v": 1}).encode()
    alien = len(meta).to_bytes(4, "little") + meta
    import gzip

    z = rng.choice(["norank", "badrank", "format", "trunc", "garbage", "empty", "alien", "ref", "len", "json", "jsonlist", "nodata", "nofrom", "badfrom", "notb64", "notgz", "alienj", "rawb64", "rawodd", "type", "datatype", "nullfrom", "tail"])
    if z == "norank":
        return z, {k: x for k, x in ok.items() if k != "X-From-Rank"}, b
    if z == "badrank":
        return z, {**ok, "X-From-Rank": rng.choice(["", "x", "1.0", "0x1", "None", "-", "1,2", "one", "1 2"])}, b
    if z == "format":
        return z, {**ok, "X-Serde-Format": rng.choice(["json", "binary", "binary-container-2", "raw-bytes", "pickle", "Binary Container"])}, b
    if z == "trunc":
        return z, ok, b[:cut]
    if z == "tail":
        return z, ok, b + rng.choice([b"\x01", b"\x05\x00\x00\x00ab", b"\xff\xff\xff\xff", b"\x00\x00\x00"])
    if z == "garbage":
        return z, ok, bytes([255, 255, 255, 127]) + b[:20]
    if z == "empty":
        return z, ok, b""
    if z == "alien":
        return z, ok, alien
    if z == "ref":
        m = json.dumps({"_kind": rng.choice(["_bytes_bref", "_ndarray_bref"]), "bref": rng.choice([0, 3]), "dtype": "int32", "shape": [1]}).encode()
        return z, ok, len(m).to_bytes(4, "little") + m
    if z == "len":
        m = json.dumps({"_kind": "_ndarray_bref", "bref": 0, "dtype": "int32", "shape": [2]}).encode()
        return z, ok, len(m).to_bytes(4, "little") + m + (4).to_bytes(4, "little") + b"abcd"
    if z == "json":
        return z, js, rng.choice([b"", b"{", b"not json", json.dumps(env).encode()[:-1], b"\xff\xfe"])
    if z == "jsonlist":
        return z, js, json.dumps(rng.choice([[env], "x", 1, None])).encode()
    if z == "nodata":
        return z, *J({k: x for k, x in env.items() if k != "data"})
    if z == "nofrom":
        return z, *J({k: x for k, x in env.items() if k != "from_rank"})
    if z == "badfrom":
        return z, *J({**env, "from_rank": rng.choice(["x", "", [], {}, 1.5, "1.5"])})
    if z == "nullfrom":
        return z, *J({**env, "from_rank": None})
    if z == "notb64":
        return z, *J({**env, "data": rng.choice(["!", "a", "=", "%%%%", "QUJD"])})
    if z == "notgz":
        return z, *J({**env, "data": base64.b64encode(rng.choice([b"", b"abc", b"\x1f\x8b", gzip.compress(b"{")])).decode()})
    if z == "alienj":
        return z, *J({**env, "data": base64.b64encode(gzip.compress(meta)).decode()})
    if z == "rawb64":
        return z, *J({**env, "data": rng.choice(["!!!!", "a", "QUJ", "QU*D", "=QUJD"]), "is_raw_bytes": True})
    if z == "rawodd":
        return z, *J({**env, "is_raw_bytes": rng.choice(["perhaps", 7, [], None])})
    if z == "type":
        return z, {"Content-Type": rng.choice(["text/plain", "application/x-binary", "application/octet"]), "X-From-Rank": str(frm), "X-Is-Raw-Bytes": "0", "X-Serde-Format": "binary-container"}, b
    return z, *J({**env, "data": rng.choice([5, None, [t], {}])})


_sims = {}


def cluster(binary):
    if binary not in _sims:
        _sims[binary] = httpsim.HttpSim(3, recv_timeout=5.0, use_binary=binary)
    return _sims[binary]


def case(seed):
    import httpx

    from mplang.backends.simp_worker.http import RecvTimeoutError
    from mplang.edsl import serde

    rng = random.Random(seed)
    binary = rng.choice([True, False, None])
    sim = cluster(binary)
    comms = [p._c for p in sim.proxies]
    # slots: related keys between the same parties
    n = rng.choice([1, 2, 3, 4])
    slots = []
    base = key(rng)
    run = f"{seed}" if rng.random() < 0.5 else ""
    while len(slots) < n:
        z = rng.random()
        k = base if z < 0.3 else quote(base) if z < 0.4 else base + rng.choice(["/", ".", " ", "%", "/..", "?", "#x"]) if z < 0.6 else key(rng)
        s = (rng.randrange(3), rng.randrange(3), rng.choice(["", run]) + k)
        if s not in slots:
            slots.append(s)
    ev, terms, notes, bg = [], [], [], {}
    lock = threading.Lock()

    def cls(v):
        t = valgen.term(v)
        if t not in terms:
            terms.append(t)
        return terms.index(t) + 1

    def send(s, v, wait=True):
        f, t, k = slots[s]
        try:
            if rng.random() < 0.3 and wait:
                comms[f].send_sync(t, k, v, timeout=rng.choice([None, 20]))
            else:
                h = comms[f].send(t, k, v, **({"is_raw_bytes": True} if isinstance(v, bytes) and rng.random() < 0.5 else {}))
                if not wait:
                    return h
                h.wait()
            return True
        except Exception as e:
            if not core.is_repo_failure(e):
                raise
            return False

    full = {}
    with httpx.Client(timeout=20) as cl:
        for _ in range(rng.choice([6, 10, 16])):
            s = rng.randrange(len(slots))
            f, t, k = slots[s]
            z = rng.random()
            if z < 0.3:
                v = payload(rng)
                ev.append({"e": "good", "s": s + 1, "v": cls(v), "ok": send(s, v)})
            elif z < 0.38:
                v = payload(rng)
                h, body = hand(rng, serde, f, v)
                r = cl.put(f"{sim.endpoints[t]}/comm/{quote(k, safe='').replace('.', '%2E')}", content=body, headers=h)
                ev.append({"e": "good", "s": s + 1, "v": cls(v), "ok": r.status_code < 400})
            elif z < 0.62:
                name, h, body = malformed(rng, serde, f, payload(rng))
                r = cl.put(f"{sim.endpoints[t]}/comm/{quote(k, safe='').replace('.', '%2E')}", content=body, headers=h)
                ev.append({"e": "bad", "s": s + 1, "v": 0, "ok": r.status_code < 400})
                notes.append([len(ev), name, str(h), body[:60].hex()])
            elif z < 0.66:
                v = rng.choice([Unsendable(), [1, Unsendable()], {"a": object()}])
                ev.append({"e": "bad", "s": s + 1, "v": 0, "ok": send(s, v)})
            elif z < 0.74 and s not in bg:
                v = payload(rng)
                ev.append({"e": "start", "s": s + 1, "v": cls(v), "ok": True})
                bg[s] = (send(s, v, wait=False), cls(v))
            elif z < 0.8 and bg:
                end(ev, bg, rng.choice(list(bg)))
            else:
                if s in bg:
                    end(ev, bg, s)
                ev.append({"e": "recv", "s": s + 1, "v": take(comms, slots[s], RecvTimeoutError, cls, 0.03), "ok": True})
        for s in list(bg):
            end(ev, bg, s)
        for s in range(len(slots)):
            ev.append({"e": "recv", "s": s + 1, "v": take(comms, slots[s], RecvTimeoutError, cls, 0.03), "ok": True})
    return {"seed": seed, "slots": len(slots), "names": [list(s) for s in slots], "binary": binary, "ev": ev, "notes": notes, "vals": [core.short(t, 150) for t in terms]}


def end(ev, bg, s):
    h, v = bg.pop(s)
    try:
        h.wait()
        ok = True
    except Exception as e:
        if not core.is_repo_failure(e):
            raise
        ok = False
    ev.append({"e": "end", "s": s + 1, "v": v, "ok": ok})


def take(comms, slot, exc, cls, timeout):
    f, t, k = slot
    try:
        return cls(comms[t].recv(f, k, timeout=timeout))
    except exc:
        return 0


def cases(seeds):
    out = []
    try:
        for s in seeds:
            out.append(case(s))
    finally:
        for s in _sims.values():
            s.close()
        _sims.clear()
    return out


def corrupt(rng, t):
    ev = [dict(e) for e in t["ev"]]
    n = rng.randrange(len(ev))
    e = ev[n]
    if e["e"] in ("good", "bad", "end"):
        e["ok"] = not e["ok"]
    elif e["e"] == "recv":
        e["v"] = 0 if e["v"] else 1
    else:
        return None
    return {**t, "ev": ev}


def run(chk):
    import mplang.backends  # noqa: F401

    k = {"Chars": "<-AllChars", "MaxLen": chk.n(2, 3), "MaxSteps": 2, "EscapeDot": "TRUE", "EscapePercent": "TRUE", "CheckFirst": "TRUE"}
    chk.spec_ok(run_tlc("MC_Transport", cfg(constants={**k, "MaxSteps": 0, "MaxLen": chk.n(4, 5)}, invariants=("KeysFaithful",)), workers=4, timeout=1500), "MC_Transport: every key over 6 characters arrives as itself")
    b = {**k, "Chars": "<-TwoChars", "MaxLen": 2, "MaxSteps": chk.n(5, 7)}
    chk.spec_ok(run_tlc("MC_Transport", cfg(constants=b, invariants=("Faithful",), properties=("Accepted",)), workers=8, timeout=2500),
                "MC_Transport: correct and malformed deliveries under every key over 2 characters")
    for bad, inv in (({**k, "EscapeDot": "FALSE", "MaxSteps": 0}, "KeysFaithful"), ({**k, "EscapePercent": "FALSE", "MaxSteps": 0}, "KeysFaithful"), ({**b, "CheckFirst": "FALSE"}, "Faithful")):
        if run_tlc("MC_Transport", cfg(constants=bad, invariants=(inv,)), workers=4, timeout=600).ok:
            raise RuntimeError("the specification does not notice a missing precaution")
    n = chk.n(560, 12000)
    seeds = [f"{chk.seed}-c13-{i}" for i in range(n)]
    outs = [x for o in core.pmap(chk, cases, [seeds[i:i + 20] for i in range(0, n, 20)], limit=200) for x in o]
    tr = [{"slots": o["slots"], "ev": o["ev"]} for o in outs]
    r, acc, prog = validate_traces("Trace_Transport", tr, timeout=3000)
    chk.tlc(r)
    chk.traces += len(tr)
    for i, o in enumerate(outs, 1):
        for e in o["ev"]:
            chk.count("deliveries_" + e["e"])
        if i in acc:
            chk.sample({x: o[x] for x in ("names", "binary", "ev")})
        else:
            at = prog.get(i) or 1
            chk.violation(f"transport:{o['seed']}", {"at": at, "event": o["ev"][at - 1] if at <= len(o["ev"]) else None, **o})
    rng = random.Random(f"{chk.seed}-c13-x")
    bad = [x for x in (corrupt(rng, t) for j, t in enumerate(tr, 1) if j in acc) if x][:80]
    if bad:
        r2, acc2, _ = validate_traces("Trace_Transport", bad, timeout=900)
        chk.extra["corrupted_traces_rejected"] = f"{len(bad) - len(acc2)}/{len(bad)}"
        if len(acc2) > len(bad) // 6:
            raise RuntimeError(f"the trace specification accepts {len(acc2)} of {len(bad)} corrupted traces")
