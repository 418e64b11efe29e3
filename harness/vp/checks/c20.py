"""C20: stored files stay inside the store and are never silently replaced (spec: StorePaths.tla, Store.tla)."""
import copy

from vp import core, pathgen
from vp.checks import c19
from vp.tlc import cfg, run_tlc, validate_traces

INV = ("Contained", "ReadInside", "NotReplaced", "NoNewLinks", "Whole")


def run(chk):
    import mplang  # noqa: F401
    import mplang.backends.store_impl  # noqa: F401
    import mplang.backends.table_impl  # noqa: F401
    import mplang.backends.tensor_impl  # noqa: F401

    base = {"MaxSteps": chk.n(1, 2), "MaxLen": 3, "Bug": '"none"'}
    chk.spec_ok(run_tlc("MC_StorePaths", cfg(constants=base, invariants=INV), workers=8, timeout=3000), "MC_StorePaths")
    for b in ("Prefix", "NoLinks", "LinksOnly", "Overwrite", "StoreLink", "Partial"):
        if run_tlc("MC_StorePaths", cfg(constants={**base, "MaxLen": 2, "MaxSteps": 1, "Bug": f'"{b}"'}, invariants=INV), workers=4).ok:
            if b != "LinksOnly":             # checking only where it leads is enough
                raise RuntimeError(f"the model does not notice {b}")

    def job(i):
        seed = f"{chk.seed}-C20-{i}"
        return seed, pathgen.history(seed)

    out = core.pmap(chk, job, range(chk.n(1800, 30000)), limit=120)
    for k in range(0, len(out), 1800):
        part = out[k:k + 1800]
        r, acc, prog = validate_traces("Trace_StorePaths", [t for _, t in part], timeout=3000)
        chk.tlc(r)
        chk.traces += len(acc)
        chk.count("path_histories", len(part))
        chk.count("operations", sum(len(t["ev"]) for _, t in part))
        for i, (seed, t) in enumerate(part, 1):
            if i not in acc:
                at = prog.get(i)
                j = min(at, len(t["ev"])) - 1 if at else 0
                e = t["ev"][j]
                before = t["ev"][j - 1]["tree"] if j else t["tree"]
                chk.violation(f"paths:{e['op']}", {"seed": seed, "op": {k: v for k, v in e.items() if k != "tree"},
                                                   "gone": [x for x in before if x not in e["tree"]], "new": [x for x in e["tree"] if x not in before],
                                                   "before": [{k: v for k, v in x.items() if k != "tree"} for x in t["ev"][:j]], "tree": before})
    chk.sample({k: v for k, v in out[0][1].items() if k != "ev"})
    selftest([t for _, t in out])
    c19.decide(chk, chk.n(500, 10000), True)


def selftest(batch):
    bad = []
    for t in batch:
        for j, e in enumerate(t["ev"]):
            if e["op"] in ("put", "upload", "del", "get", "exists", "download") and len(bad) < 40:
                c = copy.deepcopy(t)
                c["ev"] = c["ev"][:j + 1]
                x = next((x for x in c["ev"][j]["tree"] if x["k"] == "f" and x["p"][:3] != pathgen.ROOT and x["p"][:2] != ["u", "local"]), None)
                if x:
                    x["c"] = 1 if x["c"] != 1 else 2
                    bad.append(c)
                c = copy.deepcopy(t)
                c["ev"] = c["ev"][:j + 1]
                if e["op"] == "get" and e["s"] == "ok":
                    c["ev"][j]["got"] += 1
                    bad.append(c)
    _, acc, _ = validate_traces("Trace_StorePaths", bad)
    if not bad or acc:
        raise RuntimeError(f"corrupted histories were accepted: {sorted(acc)} of {len(bad)}")
