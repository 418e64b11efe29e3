"""C21: moving data between devices (spec: Devices.tla)."""
from vp import devcheck


def run(chk):
    devcheck.model(chk)
    cases, seeds = devcheck.cases(chk, chk.n(160, 4000), "C21", infer=0.2)
    more, mseeds = devcheck.cases(chk, chk.n(80, 1500), "C21t", infer=0.1, typed=True)
    chk.count("typed_cases", len(more))
    cases, seeds = cases + more, seeds + mseeds
    acc = devcheck.decide(chk, cases, seeds, "device")
    devcheck.selftest(cases, acc)
