"""Random multi-party programs (encoding: spec/Simp.tla) and their construction through the public API."""

from __future__ import annotations

from vp import sched


class V:
    """A program variable: static parties (None: dynamic), value type, who
    really holds it, whether all holders hold the same value."""

    def __init__(self, ps, vt, hs, uni):
        self.ps, self.vt, self.hs, self.uni = ps, vt, frozenset(hs), uni

    def typ(self):
        return (self.ps, self.vt)


class Ctx:
    """Where statements are being generated: active parties A; comm: may parties
    exchange messages here; conds: may declared-uniform branches appear."""

    def __init__(self, A, comm=True, conds=True, depth=2):
        self.A, self.comm, self.conds, self.depth = frozenset(A), comm, conds, depth


class Gen:
    def __init__(self, rng, world, size=6, feats=()):
        self.rng, self.world, self.size, self.uid = rng, world, size, 0
        self.W = frozenset(range(world))
        self.feats = feats

    def some(self, s, lo=1):
        s = sorted(s)
        return frozenset(self.rng.sample(s, self.rng.randint(min(lo, len(s)), len(s))))

    def mkop(self, f, ins, c=0, nout=1):
        self.uid += 1
        return {"k": "op", "f": f, "uid": self.uid, "c": c, "ins": list(ins), "nout": nout}

    # ------------------------------------------------------------ local bodies
    def local(self, vts, unis, want, conds, depth):
        """Region over inputs of the given types; returns (region, uniformity of results).

        want: result types, or None for a free choice."""
        rng = self.rng
        env = [(t, u) for t, u in zip(vts, unis)]
        body = []

        def pick(vt=None, uni=None):
            c = [i + 1 for i, (t, u) in enumerate(env) if (vt is None or t == vt) and (uni is None or u == uni)]
            return rng.choice(c) if c else None

        def add(s, outs):
            body.append(s)
            env.extend(outs)

        def op(f=None, nout=None):
            n = rng.choice([0, 1, 1, 2, 2, 3, len(env)])
            ins = [i for i in (pick() for _ in range(n)) if i] if n < 4 else rng.sample(range(1, n + 1), n)
            f = f or rng.choice(["mix", "mix", "mix", "small", "par"])
            nout = nout or rng.choice([1, 1, 1, 2])
            u = all(env[i - 1][1] for i in ins)
            add(self.mkop(f, ins, rng.randrange(100), nout), [("b" if f == "par" else "i", u)] * nout)

        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            z = rng.random()
            if z < 0.62 or depth == 0:
                op()
            elif z < 0.8 and conds:
                p = pick("b", True)
                if p is None:
                    op("par", 1)
                    p = pick("b", True)
                    if p is None:
                        continue
                ins = [i for i in (pick() for _ in range(rng.choice([0, 1, 2, 2]))) if i]
                w = rng.choices(["i", "b"], k=rng.choice([1, 1, 2]))
                st = self.struct(len(w))
                a, ua = self.local([env[i - 1][0] for i in ins], [env[i - 1][1] for i in ins], w, conds, depth - 1)
                b, ub = self.local([env[i - 1][0] for i in ins], [env[i - 1][1] for i in ins], w, conds, depth - 1)
                a["st"] = b["st"] = st
                add({"k": "cond", "pred": p, "ins": ins, "th": a, "el": b}, [(t, x and y) for t, x, y in zip(w, ua, ub)])
            else:
                # loop: counter first
                n = rng.choice(["small", "small", None])
                add(self.mkop("small", [i for i in [pick()] if i and n], rng.randrange(3), 1), None or [("i", False)])
                cu = all(env[i - 1][1] for i in body[-1]["ins"])
                env[-1] = ("i", cu)
                init = [len(env)] + [i for i in (pick() for _ in range(rng.choice([0, 1, 2]))) if i]
                caps = [i for i in (pick() for _ in range(rng.choice([0, 0, 1, 2, 3]))) if i]
                full = init + caps
                ts = [env[i - 1][0] for i in full]
                us = [cu] + [cu and env[i - 1][1] for i in full[1:]]
                # state uniformity may degrade over iterations: treat non-counter state as non-uniform inside
                ui = [cu] + [False] * (len(full) - 1)
                bb, _ = self.local(ts, ui, [env[i - 1][0] for i in init[1:]], conds and cu, depth - 1)
                bb["body"].append(self.mkop("inc", [1]))
                bb["res"] = [self.envlen(len(full), bb["body"])] + bb["res"]
                bb["st"] = self.struct(len(init))
                cb = {"body": [self.mkop("lt", [1], rng.choice([1, 2, 3]))], "res": [len(full) + 1], "st": bb["st"]}
                if rng.random() < 0.2:
                    cb["body"].insert(0, self.mkop("mix", [rng.randint(1, len(full))]))
                    cb["res"] = [len(full) + 2]
                add({"k": "while", "init": init, "caps": caps, "cb": cb, "bb": bb}, [("i", cu)] + [(env[i - 1][0], False) for i in init[1:]])
        res = []
        want = want if want is not None else rng.choices(["i", "i", "b"], k=rng.choice([1, 1, 1, 2, 3]))
        for t in want:
            i = pick(t) if rng.random() < 0.5 else None
            if i is None:
                op("par" if t == "b" else rng.choice(["mix", "small"]), 1)
                i = len(env)
            res.append(i)
        return {"body": body, "res": res, "st": self.struct(len(res))}, [env[i - 1][1] for i in res]

    def struct(self, n):
        return self.rng.choice([0, 1, 2, 3, 0] if n == 1 else [1, 1, 2, 3])

    @staticmethod
    def nouts(s):
        k = s["k"]
        if k == "op":
            return s["nout"]
        if k in ("pcall", "pdyn"):
            return len(s["res"])
        if k == "cond":
            return len(s["th"]["res"])
        if k == "while":
            return len(s["init"])
        if k == "coll":
            return s["n"]
        return 1

    def envlen(self, n, body):
        return n + sum(self.nouts(s) for s in body)

    # ------------------------------------------------------- multi-party bodies
    def multi(self, env, ctx, n, want=None):
        """Region over the variables ``env`` (V); returns (region, result variables)."""
        rng = self.rng
        env = list(env)
        body = []

        def add(s, outs):
            body.append(s)
            env.extend(outs)

        def cands(f):
            return [i + 1 for i, v in enumerate(env) if f(v)]

        def pcall(ps=None, want=None, need=None):
            if ps is None:
                i = rng.choice(cands(lambda v: v.hs & ctx.A) or [0])
                ps = self.some(env[i - 1].hs & ctx.A if i and rng.random() < 0.8 else ctx.A)
            c = cands(lambda v: ps <= v.hs)
            ins = [rng.choice(c) for _ in range(rng.choice([0, 1, 1, 2, 2, 3])) if c]
            if need:
                ins = ins + [need]
            us = [env[i - 1].uni or len(ps) == 1 for i in ins]
            g, ur = self.local([env[i - 1].vt for i in ins], us, want, ctx.conds is True or (ctx.conds == "parties" and ps <= ctx.A), ctx.depth)
            vts = self.local_types(g, [env[i - 1].vt for i in ins])
            add({"k": "pcall", "ps": sorted(ps), "ins": ins, **g}, [V(tuple(sorted(ps)), t, ps, u) for t, u in zip(vts, ur)])

        def pdyn():
            c = cands(lambda v: v.hs & ctx.A)
            ins = [rng.choice(c) for _ in range(rng.choice([1, 1, 2, 2]))] if c else []
            hs = ctx.A
            for i in ins:
                hs = hs & env[i - 1].hs
            if not hs:
                ins, hs = ins[:1], (env[ins[0] - 1].hs & ctx.A)
            us = [env[i - 1].uni for i in ins]
            g, ur = self.local([env[i - 1].vt for i in ins], us, None, ctx.conds is True and hs == self.W, ctx.depth)
            vts = self.local_types(g, [env[i - 1].vt for i in ins])
            add({"k": "pdyn", "ins": ins, **g}, [V(None, t, hs, u) for t, u in zip(vts, ur)])

        def shuf():
            c = cands(lambda v: v.hs & ctx.A)
            if not c:
                return pcall()
            i = rng.choice(c)
            v = env[i - 1]
            src = sorted(v.hs & ctx.A)
            tg = rng.sample(sorted(ctx.A), rng.randint(1, len(ctx.A)))
            z = rng.random()
            if z < 0.3 and len(src) > 1:   # permutation of the holders
                q = src[:]
                rng.shuffle(q)
                rt = [list(x) for x in zip(src, q)]
                rng.shuffle(rt)
            elif z < 0.55:
                one = rng.choice(src)
                rt = [[t, one] for t in tg]
            else:
                rt = [[t, rng.choice(src)] for t in tg]
            u = v.uni or len({s for _, s in rt}) == 1
            add({"k": "shuf", "src": i, "rt": rt}, [V(tuple(sorted(t for t, _ in rt)), v.vt, {t for t, _ in rt}, u)])

        def conv():
            vt = rng.choice(["i", "i", "b"])
            c = cands(lambda v: v.vt == vt and v.hs & ctx.A)
            rng.shuffle(c)
            ins, used, dyn = [], frozenset(), False
            for i in c:
                v = env[i - 1]
                if not (v.hs & used) and len(ins) < 4:
                    ins.append(i)
                    used |= v.hs
                    dyn |= v.ps is None
            if not ins:
                return pcall()
            add({"k": "conv", "ins": ins}, [V(None if dyn else tuple(sorted(used)), vt, used, env[ins[0] - 1].uni if len(ins) == 1 else False)])

        def coll():
            A = sorted(ctx.A)
            name = rng.choice(["transfer", "replicate", "distribute", "collect", "allreplicate", "permute"])
            single = cands(lambda v: v.ps is not None and len(v.ps) == 1 and v.hs <= ctx.A)
            stat = cands(lambda v: v.ps is not None and v.hs <= ctx.A)
            if name in ("transfer", "replicate"):
                if not single:
                    return shuf()
                i = rng.choice(single)
                v = env[i - 1]
                if name == "transfer":
                    to = rng.choice(A)
                    add({"k": "coll", "name": name, "ins": [i], "to": [to], "rt": [], "n": 1}, [V((to,), v.vt, {to}, True)])
                else:
                    to = rng.sample(A, rng.randint(1, len(A)))
                    add({"k": "coll", "name": name, "ins": [i], "to": to, "rt": [], "n": 1}, [V(tuple(sorted(to)), v.vt, to, True)])
            elif name == "distribute":
                if ctx.A != self.W or not single:
                    return shuf()
                v = env[rng.choice(single) - 1]
                c = cands(lambda x: x.typ() == v.typ())
                ins = [rng.choice(c) for _ in range(rng.randint(1, self.world))]
                r = range(len(ins))
                add({"k": "coll", "name": name, "ins": ins, "to": [v.ps[0]], "rt": [], "n": 1}, [V(tuple(r), v.vt, r, len(ins) == 1)])
            elif name in ("collect", "allreplicate"):
                if not stat:
                    return shuf()
                i = rng.choice(stat)
                v = env[i - 1]
                to = rng.choice(A)
                ps = (to,) if name == "collect" else v.ps
                add({"k": "coll", "name": name, "ins": [i], "to": [to], "rt": [], "n": len(v.ps)}, [V(ps, v.vt, ps, True) for _ in v.ps])
            else:
                if not stat:
                    return shuf()
                i = rng.choice(stat)
                v = env[i - 1]
                rt = [[t, rng.choice(v.ps)] for t in rng.sample(A, rng.randint(1, len(A)))]
                add({"k": "coll", "name": name, "ins": [i], "to": [], "rt": rt, "n": 1},
                    [V(tuple(sorted(t for t, _ in rt)), v.vt, {t for t, _ in rt}, v.uni or len({s for _, s in rt}) == 1)])

        def cond():
            if ctx.conds is not True or ctx.A != self.W or ctx.depth == 0:
                return pcall()
            p = cands(lambda v: v.vt == "b" and v.hs == self.W and v.uni)
            if "disagree" in self.feats and ctx.depth == 2 and rng.random() < 0.7:
                if rng.random() < 0.5:
                    pcall(self.W, ["b"])
                p = cands(lambda v: v.vt == "b" and v.hs == self.W) or p
            if not p:
                # make a truth value that everybody holds
                pcall({rng.choice(sorted(self.W))} if rng.random() < 0.5 else None, ["b"])
                v = env[-1]
                s = rng.choice(sorted(v.hs))
                add({"k": "shuf", "src": len(env), "rt": [[t, s] for t in sorted(self.W)]}, [V(tuple(sorted(self.W)), "b", self.W, True)])
                p = [len(env)]
            p = rng.choice(p)
            ins = self.region_ins(env)
            sub = Ctx(self.W, True, True, ctx.depth - 1)
            want = [(self.some(self.W), rng.choice(["i", "b"])) for _ in range(rng.choice([1, 1, 2]))]
            th, a = self.multi([env[i - 1] for i in ins], sub, rng.choice([0, 1, 2]), want)
            el, b = self.multi([env[i - 1] for i in ins], sub, rng.choice([0, 1, 2]), want)
            th["st"] = el["st"] = self.struct(len(want))
            add({"k": "cond", "pred": p, "ins": ins, "th": th, "el": el}, [V(x.ps, x.vt, x.hs, x.uni and y.uni) for x, y in zip(a, b)])

        def loop():
            if ctx.depth == 0:
                return pcall()
            z = rng.random()
            H = ctx.A if z < 0.5 else self.some(ctx.A)
            uniform = rng.random() < 0.7
            one = [self.mkop("small", [], rng.randrange(3))]
            if uniform:
                add({"k": "pcall", "ps": sorted(H), "ins": [], "body": one, "res": [1], "st": 0}, [V(tuple(sorted(H)), "i", H, True)])
            else:
                c = cands(lambda v: H <= v.hs)
                one[0]["ins"] = [1] if c else []
                src = rng.choice(c) if c else None
                add({"k": "pcall", "ps": sorted(H), "ins": [src] if src else [], "body": one, "res": [2 if src else 1], "st": 0},
                    [V(tuple(sorted(H)), "i", H, (not src) or env[src - 1].uni)])
                uniform = (not src) or env[src - 1].uni
            ctr = len(env)
            c = cands(lambda v: v.hs <= H and v.ps is not None)
            init = [ctr] + [rng.choice(c) for _ in range(rng.choice([0, 1, 2])) if c]
            caps = [i for i in self.region_ins(env) if i not in init]
            full = [V(v.ps, v.vt, v.hs, (v.uni and k >= len(init)) or (k == 0 and uniform)) for k, v in enumerate(env[i - 1] for i in init + caps)]
            sub = Ctx(H, ctx.comm and uniform, (True if H == self.W else "parties") if uniform and ctx.conds else False, ctx.depth - 1)
            if uniform and ctx.conds == "parties":
                sub.conds = "parties"
            bb, _ = self.multi(full, sub, rng.choice([0, 1, 2, 2]), [(env[i - 1].hs, env[i - 1].vt) for i in init[1:]])
            bb["body"].append({"k": "pcall", "ps": sorted(H), "ins": [1], "body": [self.mkop("inc", [1])], "res": [2], "st": 0})
            bb["res"] = [self.envlen(len(full), bb["body"])] + bb["res"]
            bb["st"] = self.struct(len(init))
            cb = {"body": [{"k": "pcall", "ps": sorted(H), "ins": [1], "body": [self.mkop("lt", [1], rng.choice([1, 2, 2, 3]))], "res": [2], "st": 0}],
                  "res": [len(full) + 1], "st": bb["st"]}
            add({"k": "while", "init": init, "caps": caps, "cb": cb, "bb": bb},
                [V(env[i - 1].ps, env[i - 1].vt, env[i - 1].hs, k == 0 and uniform) for k, i in enumerate(init)])

        comm = [(shuf, 5), (coll, 4)] if ctx.comm else []
        kinds = [(pcall, 6), (pdyn, 2), (conv, 2), (cond, 3), (loop, 2)] + comm
        for _ in range(n):
            rng.choices([k for k, _ in kinds], [w for _, w in kinds])[0]()
        res, out = [], []
        if want is None:
            if not env:
                pcall()
            k = rng.randint(1, min(4, len(env)))
            res = [len(env)] + rng.sample(range(1, len(env) + 1), k - 1)
            rng.shuffle(res)
        else:
            for ps, vt in want:
                c = cands(lambda v: v.ps == tuple(sorted(ps)) and v.vt == vt and v.hs == frozenset(ps))
                if c and rng.random() < 0.5:
                    res.append(rng.choice(c))
                else:
                    pcall(frozenset(ps), [vt])
                    res.append(len(env))
        return {"body": body, "res": res, "st": self.struct(len(res))}, [env[i - 1] for i in res]

    def region_ins(self, env):
        k = self.rng.choice([0, 1, 2, 2, 3])
        return self.rng.sample(range(1, len(env) + 1), min(k, len(env)))

    def local_types(self, g, vts):
        env = list(vts)
        for s in g["body"]:
            env += self.stmt_vts(s, env)
        return [env[i - 1] for i in g["res"]]

    def stmt_vts(self, s, env):
        if s["k"] == "op":
            return ["b" if s["f"] in ("par", "lt") else "i"] * s["nout"]
        if s["k"] == "cond":
            return self.local_types(s["th"], [env[i - 1] for i in s["ins"]])
        return [env[i - 1] for i in s["init"]]

    def inputs(self):
        rng = self.rng
        out, vals = [], []
        for _ in range(rng.choice([0, 1, 2, 2, 3])):
            dyn = rng.random() < 0.15
            ps = self.some(self.W)
            vt = rng.choice(["i", "i", "i", "b"])
            uni = rng.random() < 0.5
            one = rng.randrange(2) if vt == "b" else rng.randrange(9973)
            d = {p: one if uni else (rng.randrange(2) if vt == "b" else rng.randrange(9973)) for p in ps}
            out.append(V(None if dyn else tuple(sorted(ps)), vt, ps, uni))
            vals.append([d.get(r, -1) for r in range(self.world)])
        return out, vals


def draw(rng, world=None, size=None, disagree=True):
    world = world or rng.choice([1, 2, 2, 3, 3, 3, 4])
    g = Gen(rng, world, feats=("disagree",) if rng.random() < 0.08 and disagree else ())
    ins, vals = g.inputs()
    prog, _ = g.multi(ins, Ctx(g.W), size or rng.choice([2, 3, 4, 6, 8]))
    return {"world": world, "inputs": [{"ps": [-1] if v.ps is None else list(v.ps), "vt": v.vt, "vals": x} for v, x in zip(ins, vals)], "prog": prog}


# ------------------------------------------------------------------ building
def uses(g, i):
    """Does the region use its i-th input?"""
    if i in g["res"]:
        return True
    for s in g["body"]:
        if i in s.get("ins", []) or i in s.get("init", []) or i == s.get("src") or i == s.get("pred"):
            return True
        if s["k"] == "while":
            n = len(s["init"])
            if any(c == i and (uses(s["cb"], n + 1 + k) or uses(s["bb"], n + 1 + k)) for k, c in enumerate(s["caps"])):
                return True
    return False


_M = None


class BadProgram(Exception):
    """A spoiled program refers to a variable that does not exist."""


class Machine:
    """Python functions for programs, built with the public API."""

    def __init__(self, rng):
        global _M
        import mplang.edsl as el
        import mplang.edsl.typing as elt
        from mplang.edsl.typing import MPType, TensorType

        if _M is None:
            op = el.Primitive("vpt.op")

            @op.def_abstract_eval
            def _ae(in_types, *, f, uid, c, nout):
                t = TensorType(elt.bool_ if f in ("par", "lt") else elt.i64, ())
                return [t] * nout if nout > 1 else t

            _M = op
        self.op, self.rng = _M, rng
        self.t = {"i": TensorType(elt.i64, ()), "b": TensorType(elt.bool_, ())}
        self.MPType = MPType

    def mptype(self, inp):
        return self.MPType(self.t[inp["vt"]], None if inp["ps"] == [-1] else tuple(inp["ps"]))

    @staticmethod
    def pack(xs, st):
        if st == 0 and len(xs) == 1:
            return xs[0]
        if st in (0, 1):
            return tuple(xs)
        if st == 2:
            return list(xs)
        return {f"r{k}": x for k, x in enumerate(xs)}

    @staticmethod
    def unpack(x, n):
        if isinstance(x, dict):
            return [x[f"r{k}"] for k in range(n)]
        if isinstance(x, (list, tuple)):
            return list(x)
        return [x]

    def fn(self, prog, multi=True):
        """A Python function of the program's inputs."""
        if multi:
            self.plan(prog)
        return lambda *args: self.pack(self.region(prog, list(args)), prog["st"])

    def plan(self, s):
        """Decide (once) which region inputs are captured rather than passed."""
        if isinstance(s, dict):
            if "k" in s and "_cap" not in s:
                n = len(s.get("ins", []))
                mode = self.rng.choice(["args", "args", "capture", "mixed"])
                # a captured variable is an input only if the body uses it
                regs = [s] if s["k"] in ("pcall", "pdyn") else [s["th"], s["el"]] if s["k"] == "cond" else []
                s["_cap"] = [(mode == "capture" or (mode == "mixed" and self.rng.random() < 0.5)) and any(uses(g, k + 1) for g in regs) for k in range(n)]
                s["_kw"] = self.rng.random() < 0.2
            for v in list(s.values()):
                self.plan(v)
        elif isinstance(s, list):
            for v in s:
                self.plan(v)

    def region(self, g, env):
        env = list(env)
        for s in g["body"]:
            if max([0, *s.get("ins", []), *s.get("init", []), *s.get("caps", []), s.get("src", 0), s.get("pred", 0)]) > len(env):
                raise BadProgram
            env += self.stmt(s, env)
        if max(g["res"]) > len(env):
            raise BadProgram
        return [env[i - 1] for i in g["res"]]

    def sub(self, s, g, env):
        """(function, args, kwargs) of a region whose inputs are partly captured."""
        ins = [env[i - 1] for i in s["ins"]]
        cap = s["_cap"]
        passed = [k for k in range(len(ins)) if not cap[k]]
        kw = [k for k in passed if s["_kw"] and k % 2 == 1 and s["k"] != "cond"]
        pos = [k for k in passed if k not in kw]

        def fn(*args, **kwargs):
            vals = list(ins)
            for k, a in zip(pos, args):
                vals[k] = a
            for k in kw:
                vals[k] = kwargs[f"x{k}"]
            return self.pack(self.region(g, vals), g["st"])

        return fn, [ins[k] for k in pos], {f"x{k}": ins[k] for k in kw}

    def stmt(self, s, env):
        from mplang.dialects import simp
        from mplang.libs import collective

        k = s["k"]
        if k == "op":
            r = self.op.bind(*[env[i - 1] for i in s["ins"]], f=s["f"], uid=s["uid"], c=s["c"], nout=s["nout"])
            return list(r) if s["nout"] > 1 else [r]
        if k in ("pcall", "pdyn"):
            fn, args, kw = self.sub(s, s, env)
            if k == "pcall":
                ps = list(s["ps"])
                if s["_kw"]:
                    ps = ps[::-1] + ps[:1]
                r = simp.pcall_static(tuple(ps), fn, *args, **kw)
            else:
                r = simp.pcall_dynamic(fn, *args, **kw)
            return self.unpack(r, len(s["res"]))
        if k == "shuf":
            return [simp.shuffle_static(env[s["src"] - 1], {t: f for t, f in s["rt"]})]
        if k == "conv":
            return [simp.converge(*[env[i - 1] for i in s["ins"]])]
        if k == "cond":
            a, args, _ = self.sub(s, s["th"], env)
            b, _, _ = self.sub(s, s["el"], env)
            return self.unpack(simp.uniform_cond(env[s["pred"] - 1], a, b, *args), len(s["th"]["res"]))
        if k == "while":
            caps = [env[i - 1] for i in s["caps"]]
            n = len(s["init"])
            st = s["cb"]["st"]

            def cond(state):
                return self.region(s["cb"], self.unpack(state, n) + caps)[0]

            def body(state):
                return self.pack(self.region(s["bb"], self.unpack(state, n) + caps), s["bb"]["st"])

            return self.unpack(simp.while_loop(cond, body, self.pack([env[i - 1] for i in s["init"]], st)), n)
        xs = [env[i - 1] for i in s["ins"]]
        name = s["name"]
        if name == "transfer":
            return [collective.transfer(xs[0], to=s["to"][0])]
        if name == "replicate":
            return [collective.replicate(xs[0], to=tuple(s["to"]))]
        if name == "distribute":
            return [collective.distribute(xs, frm=s["to"][0])]
        if name == "collect":
            return list(collective.collect(xs[0], to=s["to"][0]))
        if name == "allreplicate":
            return list(collective.allreplicate(xs[0]))
        return [collective.permute(xs[0], mapping={t: f for t, f in s["rt"]})]


def opval(f, uid, c, j, a):
    mix = (uid * 131 + c * 29 + j * 17 + sum((k + 1) * 3 * x for k, x in enumerate(a)) + 7) % 9973
    return {"mix": lambda: mix, "small": lambda: mix % 3, "par": lambda: mix % 2, "inc": lambda: a[0] + 1, "lt": lambda: int(a[0] < c)}[f]()


class Misexecuted(Exception):
    """The implementation executed an operation without its inputs."""


def handler(log, fail=None):
    """Implementation of the harness operation; log(rank, uid)."""

    def run(interp, op, *args):
        at = op.attrs
        rank = interp.get_dialect_state("simp").rank
        log(rank, at["uid"])
        if fail is not None:
            fail(rank, at["uid"])
        if any(type(a) is not int for a in args):
            raise Misexecuted(f"operation {at['uid']} executed at party {rank} with arguments {args}")
        out = [opval(at["f"], at["uid"], at["c"], j, list(args)) for j in range(at["nout"])]
        return out if at["nout"] > 1 else out[0]

    return run


def wire_of(data):
    """("v", value) for a program value, ("t", None) for truth values, else ("?", repr)."""
    if type(data) is int:
        return "v", data
    def truth(x):
        return type(x) is bool or (isinstance(x, (list, tuple)) and all(truth(y) for y in x))
    if truth(data):
        return "t", None
    return "?", repr(data)


def clean(prog):
    """The program without the construction plan (keys starting with _)."""
    if isinstance(prog, dict):
        return {k: clean(v) for k, v in prog.items() if not k.startswith("_")}
    if isinstance(prog, list):
        return [clean(v) for v in prog]
    return prog


def statements(g, multi=True):
    """Every (list, index, nvars known before it, multi) of a region."""
    for i, s in enumerate(g["body"]):
        yield g["body"], i, multi
        for k in ("th", "el", "cb", "bb"):
            if k in s:
                yield from statements(s[k], multi)
        if s["k"] in ("pcall", "pdyn"):
            yield from statements(s, False)


def spoil(rng, case):
    """A random small change of the program, which may make it ill-typed."""
    world = case["world"]
    sts = [x for x in statements(case["prog"])]
    for _ in range(30):
        body, i, multi = rng.choice(sts)
        s = body[i]
        z = rng.randrange(3)
        if s["k"] == "pcall" and z < 2:
            miss = [p for p in range(world) if p not in s["ps"]]
            if miss:
                s["ps"] = sorted(s["ps"] + [rng.choice(miss)])
                return "parties"
        if s["k"] in ("shuf", "coll") and s.get("rt") is not None and z < 2:
            if s["rt"] and rng.random() < 0.9:
                s["rt"][rng.randrange(len(s["rt"]))][1] = rng.randrange(world)
            elif s["k"] == "shuf":
                s["rt"] = []
            elif s["name"] == "permute":
                s["rt"] = []
            else:
                continue
            return "route"
        if s["k"] == "conv" and len(s["ins"]) >= 1 and z < 2:
            s["ins"].append(rng.choice(s["ins"] + [rng.randint(1, max(s["ins"]))]))
            return "converge"
        if s["k"] == "cond" and z < 2:
            g = s[rng.choice(["th", "el"])]
            w = rng.randrange(3)
            if w == 0:
                g["st"] = rng.choice([x for x in (1, 2, 3) if x != g["st"]])
            elif w == 1:
                g["res"] = g["res"] + [rng.choice(g["res"])]
                if g["st"] == 0:
                    g["st"] = 1
            else:
                g["res"][rng.randrange(len(g["res"]))] = rng.randint(1, max(g["res"]))
            return "branch"
        if s["k"] == "while" and z < 2:
            w = rng.randrange(3)
            if w == 0 and len(s["bb"]["res"]) > 1:
                rng.shuffle(s["bb"]["res"])
            elif w == 1:
                s["bb"]["res"][rng.randrange(len(s["bb"]["res"]))] = rng.randint(1, max(s["bb"]["res"]))
            elif w == 2:
                s["bb"]["res"] = s["bb"]["res"] + [s["bb"]["res"][0]] if rng.random() < 0.5 else s["bb"]["res"][:-1]
                if not s["bb"]["res"] or s["bb"]["st"] == 0:
                    s["bb"]["st"] = 1
            return "loop"
        if multi and s.get("ins"):
            k = rng.randrange(len(s["ins"]))
            s["ins"][k] = rng.randint(1, max(max(s["ins"]), 1) + 1)
            return "input"
        if multi and s["k"] == "shuf":
            s["src"] = rng.randint(1, s["src"] + 1)
            return "input"
    return "none"


def valid_refs(g, n):
    """Do all statements refer to variables that exist (and regions match)?"""
    for s in g["body"]:
        refs = s.get("ins", []) + s.get("init", []) + s.get("caps", []) + [s[k] for k in ("src", "pred") if k in s]
        if any(r > n or r < 1 for r in refs):
            return False
        k = len(s.get("ins", [])) if s["k"] != "while" else len(s["init"]) + len(s["caps"])
        for x in ("th", "el", "cb", "bb"):
            if x in s and not valid_refs(s[x], k):
                return False
        if s["k"] in ("pcall", "pdyn") and not valid_refs(s, k):
            return False
        n += Gen.nouts(s)
    return all(r <= n for r in g["res"])
