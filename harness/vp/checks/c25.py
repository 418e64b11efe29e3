"""C25: nested contexts restore the ambient context (spec: ContextStack.tla)."""
import random

from vp import core
from vp.tlc import cfg, run_tlc, validate_traces

STATES = ["a", "b", "dialect.simp"]


class Boom(Exception):
    pass


class Base(BaseException):
    pass


class Simp:
    def __init__(self, n):
        self.world_size = n


class Story:
    """A random nesting of blocks on real contexts, with what the library says."""

    def __init__(self, rng):
        import mplang  # noqa: F401
        from mplang.edsl import context as cx
        from mplang.edsl import typing as t
        from mplang.edsl.primitive import Primitive
        from mplang.edsl.tracer import Tracer
        from mplang.runtime.interpreter import Interpreter

        self.rng, self.cx = rng, cx
        self.ev, self.ids, self.objs = [], {}, []
        self.uid = 0
        self.ran = []          # (interpreter, uid) executed and not yet told
        self.scripts = {}
        self.budget = rng.choice([6, 12, 25, 40])
        cx._context_stack.clear()
        h = {"vpc.op": self.handler, "simp.pcall_static": lambda interp, op, *a: None if not op.outputs else 0}
        self.Interpreter = Interpreter
        default = Interpreter(handlers=h)
        cx._default_context = None
        cx.register_default_context_factory(lambda: default)
        self.default = self.id(default)
        self.interps = [Interpreter(handlers=h) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.5:
            self.interps.append(default)
        self.tracers = [Tracer() for _ in range(rng.choice([1, 2]))]
        for x in self.interps + self.tracers:
            self.id(x)
        self.op, self.hook = Primitive("vpc.op"), Primitive("vpc.hook")

        @self.op.def_abstract_eval
        def _ae(in_types, *, uid):
            return [t.i64]

        @self.hook.def_trace
        def _tr(f):
            return f()

    # -- what is seen
    def id(self, c):
        if c is None:
            return 0
        if id(c) not in self.ids:
            self.objs.append(c)              # kept alive: identities are not reused
            self.ids[id(c)] = len(self.objs)
        return self.ids[id(c)]

    def kind(self, c):
        return "i" if isinstance(c, self.Interpreter) else "t"

    def add(self, e, c=0, k="", u=(), b=False, f=0):
        self.ev.append({"e": e, "c": c, "k": k, "u": list(u), "b": b, "f": f})

    def cur(self):
        c = self.cx.get_current_context()
        self.add("cur", self.id(c))
        return c

    def entered(self, fresh=False):
        """The library has entered a context of its own."""
        c = self.cx.get_current_context()
        new = id(c) not in self.ids
        i = self.id(c)
        self.add("enter", i, self.kind(c), b=fresh)
        if fresh and not new:
            self.add("cur", 0)               # not fresh: no behaviour explains it
        return i

    def handler(self, interp, op, *args):
        uid = op.attrs["uid"]
        self.ran.append((self.id(interp), uid))
        s = self.scripts.pop(uid, None)
        if s:
            saved, self.ran = self.ran, []
            try:
                self.script(s)
            finally:
                self.ran = saved + self.ran
        return uid

    # -- what is done
    def recorded_by(self, uid):
        out = [self.id(c) for c in list(self.objs) if hasattr(c, "graph") and any(o.attrs.get("uid") == uid for o in c.graph.operations)]
        return out

    def apply(self, depth):
        rng = self.rng
        self.uid += 1
        uid = self.uid
        if depth > 0 and rng.random() < 0.15:
            self.scripts[uid] = depth - 1
        c = self.cx.get_current_context()
        was = self.ran
        self.ran = []
        if self.kind(c) == "t" and c is not None:
            self.scripts.pop(uid, None)
        mark = len(self.ev)
        try:
            r = self.op.bind(uid=uid)
        finally:
            ran, self.ran = self.ran, was
            by = self.recorded_by(uid) + [i for i, u in ran if u == uid]
            # the operation was applied before anything its execution did
            self.ev.insert(mark, {"e": "apply", "c": by[0] if len(by) == 1 else 0, "k": "", "u": [uid], "b": False, "f": len(by)})
        return r

    def body(self, depth):
        """A function for the library to call; what it does may fail."""
        def f(*a, **k):
            self.cur()
            self.script(depth)
            self.cur()
        return f

    def block(self, depth):
        """One use of a context, and its end."""
        import mplang
        from mplang.dialects import simp
        from mplang.edsl import tracer as tr

        rng, cx = self.rng, self.cx
        how = rng.choice(["with", "with", "push", "hook", "hook", "trace", "run", "evaluate", "ambient", "compile", "fetch", "pcall", "function"])
        c = rng.choice(self.interps + self.tracers)
        top = cx.get_current_context()
        if how == "with":
            i = self.id(c)
            try:
                with c as got:
                    self.add("enter", self.id(got), self.kind(c))
                    self.body(depth)()
            finally:
                self.add("leave", i)
        elif how == "push":
            i = self.id(c)
            cx.push_context(c)
            self.add("enter", i, self.kind(c))
            err = None
            try:
                self.body(depth)()
            except BaseException as e:  # noqa: BLE001
                err = e
            self.add("popped", self.id(cx.pop_context()))
            if err:
                raise err
        elif how == "hook":
            auto = top is None or self.kind(top) == "i"
            state = {"i": 0}

            def f():
                if auto:
                    state["i"] = self.entered(fresh=True)
                self.body(depth)()
                return self.apply(0)

            was, self.ran = self.ran, []
            done = False
            try:
                try:
                    self.hook.bind(f)
                    done = True
                finally:
                    if auto and state["i"]:
                        inside = len(self.ev)
                        self.add("leave", state["i"])
                        del inside
            finally:
                ran, self.ran = self.ran, was
                if done and auto:
                    by = {i for i, _ in ran}
                    self.add("ran", by.pop() if len(by) == 1 else 0, u=[u for _, u in ran], f=state["i"])
        elif how in ("trace", "compile"):
            state = {}

            def f():
                state["i"] = self.entered(fresh=True)
                try:
                    self.body(depth)()
                finally:
                    self.add("leave", state["i"])

            if how == "trace":
                tr.trace(f)
            else:
                c = rng.choice(self.interps)
                i = self.id(c)
                self.add("enter", i, "i")
                try:
                    mplang.compile(f, context=c)
                finally:
                    self.add("leave", i)
        elif how == "run":
            c = rng.choice(self.tracers)
            if any(c is x for x in cx._context_stack):
                return                      # a tracer records one function at a time
            i = self.id(c)

            def f():
                self.add("enter", i, "t")
                try:
                    self.body(depth)()
                finally:
                    self.add("leave", i)
            c.run(f)
        elif how == "evaluate":
            c = rng.choice(self.interps)
            self.add("enter", self.id(c), "i")
            try:
                mplang.evaluate(self.body(depth), context=c)
            finally:
                self.add("leave", self.id(c))
        elif how == "ambient":
            i = self.id(top)
            state = {"in": False}

            def f():
                state["in"] = True
                self.add("ambient", b=True)
                self.add("enter", i, "i")
                try:
                    self.body(depth)()
                finally:
                    self.add("leave", i)
            try:
                mplang.evaluate(f)
            except RuntimeError:
                if state["in"]:
                    raise
                self.add("ambient", b=False)
        elif how == "fetch":
            if rng.random() < 0.5 and (top is None or self.kind(top) != "i"):
                return
            v = [3, {"a": self.rng.random()}]
            if mplang.fetch(v, context=rng.choice([None, *self.interps]) if top is not None and self.kind(top) == "i" else rng.choice(self.interps)) != v:
                self.add("cur", 99)
        else:
            # local regions: recorded by a context of their own
            state = {"n": 0}
            auto = top is None or self.kind(top) == "i"
            inner = {}

            def f():
                stack = cx._context_stack
                if auto:
                    below = stack[-2]
                    new = id(below) not in self.ids
                    inner["a"] = self.id(below)
                    self.add("enter", inner["a"], self.kind(below), b=True)
                    if not new:
                        self.add("cur", 0)
                state["i"] = self.entered(fresh=True)
                try:
                    self.body(depth)()
                finally:
                    self.add("leave", state["i"])
            was, self.ran = self.ran, []
            try:
                if how == "pcall":
                    simp.pcall_static((0, 1), f)
                else:
                    ctx = cx.find_context(lambda x: x.has_state("dialect.simp"))
                    self.add("find", self.id(ctx), "dialect.simp")
                    if ctx is not None:
                        want = ctx.get_state("dialect.simp").world_size
                        self.uid += 1
                        f.__name__ = name = f"everyone_{self.uid}"
                        mplang.function(f)()
                        if any(list(o.attrs["parties"]) != list(range(want)) for o in self.recorders(top) if o.attrs.get("fn_name") == name):
                            self.add("find", 99, "dialect.simp")
            finally:
                if auto and inner:
                    self.add("leave", inner["a"])
                self.ran = was

    def recorders(self, top):
        return [o for o in top.graph.operations if o.opcode == "simp.pcall_static"] if top is not None and hasattr(top, "graph") else []

    def script(self, depth):
        rng = self.rng
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            if self.budget <= 0:
                return
            self.budget -= 1
            z = rng.random()
            if z < 0.25:
                self.apply(depth)
            elif z < 0.58 and depth > 0:
                if rng.random() < 0.35:
                    try:
                        self.block(depth - 1)
                    except (Boom, Base):
                        pass
                else:
                    self.block(depth - 1)
                self.cur()
            elif z < 0.66:
                raise rng.choice([Boom, Boom, Base])("x")
            elif z < 0.76:
                k = rng.choice(STATES)
                self.add("find", self.id(rng.choice([lambda: self.cx.find_context_with_state(k), lambda: self.cx.find_context(lambda c: c.has_state(k))])()), k)
            elif z < 0.82:
                self.add("findi", self.id(self.cx.find_interpreter()))
            elif z < 0.87:
                self.add("tracing", b=bool(self.cx.is_tracing()))
            elif z < 0.95:
                c = rng.choice(self.interps + self.tracers)
                k = rng.choice(STATES)
                if k == "dialect.simp":
                    if not isinstance(c, self.Interpreter):
                        continue
                    c.set_dialect_state("simp", Simp(rng.choice([1, 2, 3, 5])))
                else:
                    c.set_state(k, rng.choice([0, None, 1, "v"]))
                self.add("set", self.id(c), k)
            else:
                self.cur()

    def tell(self):
        rng = self.rng
        for _ in range(rng.choice([1, 2, 3])):
            if rng.random() < 0.3:
                c = rng.choice(self.interps + self.tracers)
                force = rng.random() < 0.5
                bad = 0
                try:
                    self.cx.set_root_context(c, force=force)
                except RuntimeError:
                    bad = 1
                self.add("root", self.id(c), self.kind(c), b=force, f=bad)
                self.cur()
            try:
                self.script(4)
            except (Boom, Base):
                pass
            self.cur()
        for _ in range(2):
            self.add("popped", self.id(self.cx.pop_context()))
        return {"ctxs": max(len(self.objs), 1), "default": self.default, "ev": self.ev}


def run(chk):
    import mplang  # noqa: F401

    base = {"Ctxs": "{1, 2, 3}", "Interps": "{1, 2}", "Keys": '{"a"}', "MaxDepth": 4, "MaxSteps": chk.n(7, 9), "Bug": '"none"'}
    chk.spec_ok(run_tlc("MC_ContextStack", cfg(constants=base, invariants=("Restored", "Answered")), workers=8, timeout=1500), "MC_ContextStack")
    for b in ("LeakOnError", "RemoveFirst", "OncePerContext", "NoReentry", "OldestFirst", "TopOnly"):
        if run_tlc("MC_ContextStack", cfg(constants={**base, "MaxSteps": 6, "Bug": f'"{b}"'}, invariants=("Restored", "Answered")), workers=4).ok:
            raise RuntimeError(f"the model does not notice {b}")

    def job(i):
        seed = f"{chk.seed}-C25-{i}"
        return seed, Story(random.Random(seed)).tell()

    out = core.pmap(chk, job, range(chk.n(6000, 120000)), limit=120)
    batch = [t for _, t in out]
    r, acc, prog = validate_traces("Trace_ContextStack", batch)
    chk.tlc(r)
    chk.traces += len(acc)
    chk.count("histories", len(batch))
    chk.count("events", sum(len(t["ev"]) for t in batch))
    chk.sample(batch[0])
    for i, (seed, t) in enumerate(out, 1):
        if i not in acc:
            at = prog.get(i)
            e = t["ev"][min(at, len(t["ev"])) - 1] if at else {"e": "history"}
            chk.violation(f"context:{e['e']}", {"seed": seed, "event": e, "before": t["ev"][max(0, (at or 1) - 25):at]})
    selftest(batch)


def selftest(batch):
    import copy

    bad = []
    for t in batch:
        for e in ("cur", "apply", "find", "ran", "findi"):
            k = next((j for j, x in enumerate(t["ev"]) if x["e"] == e and x["c"]), None)
            if k is not None:
                c = copy.deepcopy(t)
                c["ev"][k]["c"] = c["ev"][k]["c"] % c["ctxs"] + 1
                if c["ev"][k]["c"] != t["ev"][k]["c"]:
                    bad.append(c)
        k = next((j for j, x in enumerate(t["ev"]) if x["e"] == "leave"), None)
        if k is not None and t["ev"][k + 1:k + 2] and t["ev"][k + 1]["e"] in ("cur", "leave") and t["ev"][k + 1]["c"] != t["ev"][k]["c"]:
            c = copy.deepcopy(t)             # a block that was never left
            del c["ev"][k]
            bad.append(c)
        if len(bad) > 40:
            break
    _, acc, _ = validate_traces("Trace_ContextStack", bad)
    if acc or len(bad) < 6:
        raise RuntimeError(f"a corrupted history was accepted: {len(acc)} of {len(bad)}")
