"""Random program graphs with nested regions, and the harness operations they use.

A graph description is plain data:
  {"nin": k, "ops": [{"code", "ins", "nout", "uid", "regions", ...}], "outs": [value index]}
Values are numbered: inputs 0 .. nin-1, then the outputs of the operations in
order.  Input 0 of every graph is the recorder of that evaluation ("token").
"""

from __future__ import annotations

import threading

P = 9973
OP, AOP, REGION, NOIMPL = "vp.op", "vp.aop", "vp.region", "vp.noimpl"


def gen(rng, uid, *, depth=2, max_ops=6, p_async=0.5, p_region=0.25, p_fail=0.0, nin=None, nout=None, extra=None, p_noout=0.1):
    nin = nin if nin is not None else 1 + rng.randrange(0, 3)
    ops, nvals = [], nin
    for _ in range(rng.randrange(0 if depth < 2 else 1, max_ops + 1)):
        uid[0] += 1
        k = rng.randrange(0, 4)
        # bias to recent values: long chains as well as wide graphs
        cand = list(range(1, nvals))
        ins = [0] + [rng.choice(cand[-3:] if rng.random() < 0.5 else cand) for _ in range(k if cand else 0)]
        o = {"uid": uid[0], "ins": ins, "nout": rng.choice([1, 1, 1, 2, 3]) if rng.random() > p_noout else 0, "regions": [], "fail": rng.random() < p_fail, "loop": 1}
        if depth > 0 and rng.random() < p_region:
            o["code"] = REGION
            o["loop"] = rng.choice([1, 1, 2, 3])
            for _ in range(rng.choice([1, 1, 2])):
                o["regions"].append(gen(rng, uid, depth=depth - 1, max_ops=max(2, max_ops - 2), p_async=p_async, p_region=p_region, p_fail=p_fail, nin=len(ins), extra=extra, p_noout=p_noout))
        else:
            o["code"] = AOP if rng.random() < p_async else OP
            if o["fail"] and rng.random() < 0.4:
                # ways to fail that the operation itself does not report
                if o["nout"] > 1 and rng.random() < 0.6:
                    o["bad"] = "arity"
                else:
                    o["bad"], o["code"] = "noimpl", NOIMPL
        if extra:
            extra(rng, o)
        nvals += o["nout"]
        ops.append(o)
    n = nout if nout is not None else rng.randrange(0, 4)
    return {"nin": nin, "ops": ops, "outs": [rng.randrange(1, nvals) for _ in range(n)] if nvals > 1 else []}


def build(g):
    from mplang.edsl import typing as t
    from mplang.edsl.graph import Graph

    gr = Graph()
    vals = [gr.add_input(f"x{i}", t.i64) for i in range(g["nin"])]
    for o in g["ops"]:
        attrs = {"uid": o["uid"], "nout": o["nout"], "fail": o["fail"], "loop": o["loop"], "bad": o.get("bad", "")}
        attrs.update(o.get("attrs", {}))
        vals += gr.add_op(o["code"], [vals[i] for i in o["ins"]], output_types=[t.i64] * o["nout"], attrs=attrs, regions=[build(r) for r in o["regions"]])
    for i in g["outs"]:
        gr.add_output(vals[i])
    return gr


class OpFailed(Exception):
    pass


class Evaluation:
    """Recorder of one evaluation of one graph."""

    def __init__(self, run, g, path, inputs):
        self.run, self.g, self.path, self.inputs = run, g, path, inputs
        self.ev = []
        self.index = {o["uid"]: i + 1 for i, o in enumerate(g["ops"])}
        run.evals.append(self)

    def evaluate(self, interp, graph):
        try:
            outs = interp.evaluate_graph(graph, [self, *self.inputs])
        except OpFailed as e:
            self.run.note(self, {"e": "raise", "op": self.index.get(e.args[0], 0)})
            raise
        except Exception:
            self.run.note(self, {"e": "raise", "op": 0})
            raise
        self.run.note(self, {"e": "ret", "outs": [enc(o) for o in outs]})
        return outs

    def trace(self):
        ops = [{"ins": [i + 1 for i in o["ins"]], "nout": o["nout"], "noimpl": o.get("bad") == "noimpl"} for o in self.g["ops"]]
        return {"nin": self.g["nin"], "inputs": [0, *self.inputs], "ops": ops, "outs": [i + 1 for i in self.g["outs"]], "ev": self.ev}


def enc(v):
    return v if isinstance(v, int) else (0 if isinstance(v, Evaluation) else -7)


def value(uid, j, args):
    return (uid * 131 + j * 17 + sum((i + 1) * 3 * a for i, a in enumerate(args)) + 7) % P


class Run:
    """One run of a program; ``hook(eval, op, interp)`` is called inside each operation."""

    def __init__(self, hook=None, check_abort=None):
        self.evals = []
        self.hook = hook
        self.check_abort = check_abort
        self.lock = threading.Lock()

    def note(self, ev, e):
        if self.check_abort:
            self.check_abort()
        ev.ev.append(e)

    def handlers(self):
        return {OP: self.op, AOP: self.op, REGION: self.region}

    def op(self, interp, op, token, *args):
        i = token.index[op.attrs["uid"]]
        self.note(token, {"e": "start", "op": i, "args": [0, *map(enc, args)]})
        if self.hook:
            self.hook(token, op, interp, 0)
        if op.attrs["bad"] == "arity":
            self.note(token, {"e": "badend", "op": i})
            return [1] * (op.attrs["nout"] + (1 if op.attrs["uid"] % 2 else -1))
        if op.attrs["fail"]:
            self.note(token, {"e": "fail", "op": i})
            raise OpFailed(op.attrs["uid"])
        outs = [value(op.attrs["uid"], j, [enc(a) for a in args]) for j in range(op.attrs["nout"])]
        self.note(token, {"e": "end", "op": i, "outs": outs})
        return outs[0] if len(outs) == 1 else outs

    def region(self, interp, op, token, *args):
        uid = op.attrs["uid"]
        i = token.index[uid]
        self.note(token, {"e": "start", "op": i, "args": [0, *map(enc, args)]})
        if self.hook:
            self.hook(token, op, interp, 0)
        acc = [value(uid, j, [enc(a) for a in args]) for j in range(op.attrs["nout"])]
        o = token.g["ops"][i - 1]
        try:
            for it in range(op.attrs["loop"]):
                for k, r in enumerate(op.regions):
                    sub = Evaluation(self, o["regions"][k], (*token.path, uid, it, k), [(enc(a) + it) % P for a in args])
                    outs = sub.evaluate(interp, r)
                    for j in range(len(acc)):
                        for x in outs:
                            acc[j] = (acc[j] * 5 + enc(x)) % P
                    if self.hook:
                        self.hook(token, op, interp, 1 + it * 2 + k)
            if op.attrs["fail"]:
                raise OpFailed(uid)
        except Exception:
            self.note(token, {"e": "fail", "op": i})
            raise OpFailed(uid) from None
        self.note(token, {"e": "end", "op": i, "outs": acc})
        return acc[0] if len(acc) == 1 else acc
