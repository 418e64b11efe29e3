"""C19: the object store behaves as a map, also across restarts (spec: Store.tla)."""
import copy

from vp import core, storegen
from vp.tlc import cfg, run_tlc, validate_traces


def run(chk):
    import mplang  # noqa: F401
    import mplang.backends.store_impl  # noqa: F401
    import mplang.backends.tensor_impl  # noqa: F401

    base = {"Mem": "{1}", "Disk": "{2, 3}", "Vals": "{1, 2}", "Clients": "{1, 2}", "MaxSteps": chk.n(6, 8), "Bug": '"none"'}
    chk.spec_ok(run_tlc("MC_Store", cfg(constants=base, invariants=("Answered", "Durable")), workers=8, timeout=3000, heap="12g"), "MC_Store")
    for b in ("InPlace", "ListTemps", "Cache", "Alias", "Spill", "ReuseRef"):
        if run_tlc("MC_Store", cfg(constants={**base, "MaxSteps": 5, "Bug": f'"{b}"'}, invariants=("Answered",)), workers=4).ok:
            raise RuntimeError(f"the model does not notice {b}")
    decide(chk, chk.n(2500, 60000), False, chk.n(60, 1500))


def decide(chk, n, tables, clusters=0):
    def job(i):
        seed = f"{chk.seed}-{chk.pid}-{i}"
        return seed, storegen.cluster_history(seed) if i >= n else storegen.history(seed, tables)

    out = core.pmap(chk, job, range(n + clusters), limit=300)
    size = 4000
    for k in range(0, len(out), size):
        part = out[k:k + size]
        r, acc, prog = validate_traces("Trace_Store", [t for _, t in part], timeout=3000)
        chk.tlc(r)
        chk.traces += len(acc)
        chk.count("histories", len(part))
        chk.count("processes_killed_while_writing", sum(t["died"] for _, t in part))
        chk.count("calls", sum(1 for _, t in part for e in t["ev"] if e["e"] == "call"))
        for i, (seed, t) in enumerate(part, 1):
            if i not in acc:
                at = prog.get(i)
                e = t["ev"][min(at, len(t["ev"])) - 1] if at else {"e": "history", "op": ""}
                chk.violation(f"store:{e['op']}", {"seed": seed, "event": e, "names": t["names"], "before": t["ev"][max(0, (at or 1) - 40):at]})
    chk.sample(out[0][1])
    selftest([t for _, t in out])


def selftest(batch):
    bad = []
    for t in batch:
        rets = [j for j, e in enumerate(t["ev"]) if e["e"] == "ret"]
        if any(e["t"] > 1 for e in t["ev"]):
            continue
        for op, change in (("get", lambda e: e.update(v=(e["v"] % 12) + 1, s="ok")), ("exists", lambda e: e.update(v=1 - e["v"], s="ok")),
                           ("list", lambda e: e["rs"].append(0)), ("tread", lambda e: e.update(v=e["v"] + 1, s="ok")),
                           ("twrite", lambda e: e.update(s="ok" if e["s"] == "refused" else "refused", v=e["v"]))):
            j = next((j for j in rets if t["ev"][j]["op"] == op), None)
            if j is not None:
                c = copy.deepcopy(t)
                change(c["ev"][j])
                if op == "twrite" and c["ev"][j]["s"] == "ok":
                    c["ev"][j]["v"] = c["ev"][j - 1]["r"]
                bad.append(c)
        if len(bad) > 25:
            break
    r, acc, _ = validate_traces("Trace_Store", bad)
    # a refused write may also be explained by a crowded key
    if not bad or len([i for i in acc if True]) > len(bad) // 4:
        raise RuntimeError(f"corrupted histories were accepted: {sorted(acc)} of {len(bad)}")
