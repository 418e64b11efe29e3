"""C07 - C09: generated multi-party programs against spec/Simp.tla."""

from vp import sched

sched.install()

import copy
import os
import random

from vp import commcheck, core, simpgen, simprun
from vp.tlc import cfg, run_tlc, validate_traces


def one(rng, how):
    """Record one case; how: worker | driver | typing."""
    m = simpgen.Machine(rng)
    case = simpgen.draw(rng)
    what = "valid"
    if how == "typing" and rng.random() < 0.85:
        for _ in range(20):
            c = copy.deepcopy(case)
            what = simpgen.spoil(rng, c)
            if simpgen.valid_refs(c["prog"], len(c["inputs"])):
                case = c
                break
        else:
            what = "valid"
    rec = {"world": case["world"], "inputs": case["inputs"], "accepted": False, "types": [], "runs": []}
    infos, problems = [], []
    tf, types = None, None
    try:
        tf, types = simprun.trace_program(m, case)
    except simpgen.BadProgram:
        return None
    except Exception as e:
        if not core.is_repo_failure(e):
            raise
        types = e
    rec["accepted"] = tf is not None
    if tf is None:
        infos.append(repr(types))
        if how != "typing" or what == "valid":
            problems.append(f"a well-formed program was refused: {types!r}")
    else:
        rec["types"] = types
        if how == "worker":
            for _ in range(rng.choice([1, 2, 3])):
                r, i = simprun.worker_run(rng, m, case, tf)
                rec["runs"].append(r)
                infos.append(i)
                if i["left"] and i["left"][0] and r["out"] == "ok":
                    problems.append(f"{i['left'][0]} messages were sent and never received")
        elif how == "driver" or what == "valid":
            sim = simprun.Sim(case["world"])
            fetches = []
            orig = sim.state.fetch
            sim.state.fetch = lambda rank, uri: (fetches.append(uri), orig(rank, uri))[1]
            try:
                for mode in rng.sample(["eager", "compiled", "evaluate"], 2):
                    r, ty, i = simprun.driver_run(rng, m, case, mode, sim)
                    if r["out"] == "ok" and ty != types:
                        problems.append(f"types of the {mode} run {ty} differ from those of tracing {types}")
                    if i["refs"]:
                        problems.append(i["refs"])
                    if fetches:
                        problems.append(f"the driver fetched {len(fetches)} objects by itself")
                        fetches.clear()
                    rec["runs"].append(r)
                    infos.append(i)
                    if r["out"] != "ok":
                        break  # the cluster is shut down by a failure
            finally:
                sim.close()
    rec["prog"] = simpgen.clean(case["prog"])
    return rec, infos, what, problems


def run(chk, aspect, plan):
    """plan: {how: number of cases}."""
    import mplang.backends  # noqa: F401

    commcheck.patch_httpx()
    os.environ["SIMP_ASPECT"] = aspect
    jobs = [(how, i) for how, n in plan.items() for i in range(n)]

    def job(x):
        seed = f"{chk.seed}-{aspect}-{x[0]}-{x[1]}"
        return seed, x[0], one(random.Random(seed), x[0])

    batch, seeds, notes = [], [], []
    for seed, how, x in core.pmap(chk, job, jobs, limit=60):
        if x is None:
            continue
        rec, infos, what, problems = x
        batch.append(rec)
        seeds.append(seed)
        notes.append(infos)
        chk.count(f"programs_{how}")
        chk.count("programs_refused", int(not rec["accepted"]))
        if how == "typing":
            chk.count(f"spoiled_{what}")
        for p in problems:
            if aspect == "C08" and ("reference" in p or "fetched" in p) or aspect == "C09" and "types" in p or aspect == "C07" and "messages" in p or "refused" in p and aspect in ("C07", "C09"):
                chk.violation(f"{p[:60]}:{seed}", {"problem": p, "info": infos, "program": rec["prog"], "inputs": rec["inputs"]})
    r, acc, prog = validate_traces("Trace_Simp", batch)
    chk.tlc(r)
    chk.traces += len(acc)
    chk.count("runs", sum(len(t["runs"]) for t in batch))
    k = next((i for i, t in enumerate(batch) if t["runs"]), 0)
    chk.sample({"seed": seeds[k], "program": batch[k]["prog"], "inputs": batch[k]["inputs"], "runs": batch[k]["runs"][:1], "types": batch[k]["types"]})
    for i, t in enumerate(batch, 1):
        if i not in acc:
            v = prog.get(i, 0)
            chk.violation(f"trace-rejected:{seeds[i-1]}", {"verdict": "types or acceptance differ" if v == 1 else f"run {v-11} differs" if v > 10 else v,
                          "info": notes[i - 1], "accepted": t["accepted"], "types": t["types"], "specification": r.diag.get(i), "runs": t["runs"], "inputs": t["inputs"], "program": t["prog"]})
    # the binding must reject altered recordings
    bad = []
    for t in batch:
        if t["runs"] and t["runs"][0]["out"] == "ok" and len(bad) < 6:
            t2 = copy.deepcopy(t)
            run0 = t2["runs"][0]
            if aspect == "C07":
                run0["vals"][0][0] += 1 if run0["vals"][0][0] != -1 else 5
            elif aspect == "C08":
                if len(bad) % 2:
                    run0["wire"].append([0, 0, 3])
                else:
                    run0["log"].append([0, 100000])
            elif len(bad) % 2:
                t2["accepted"] = False
            else:
                ks = [k for k, ty in enumerate(t2["types"]) if ty["ps"] != [-1]]
                if not ks:
                    continue
                v = run0["vals"][ks[0]]
                v[0] = -1 if v[0] != -1 else 4
            bad.append(t2)
    _, acc, _ = validate_traces("Trace_Simp", bad)
    if acc or not bad:
        raise RuntimeError(f"binding self-test failed: {acc}")
    chk.extra["corrupted_traces_rejected"] = len(bad)
