"""Random handler programs, run on the real library under a simulated schedule and
fault plan, and compared event by event with a small reference dispatcher.

The reference keeps, per thread, a map operation -> list of handlers (innermost
first). Installing prepends; a call runs the head; forwarding runs the next one, and
after the last one the operation's default. Nothing else."""

from __future__ import annotations

import functools
import zlib

from .. import core
from ..base import Scenario

EXC_KINDS = ["ValueError", "KeyError", "RuntimeError", "StopIteration", "KeyboardInterrupt",
             "SystemExit", "GeneratorExit", "BaseBoom", "NotHandled", "AssertionError",
             "RecursionError", "MemoryError", "OSError"]


class BaseBoom(BaseException):
    pass


def make_exc(kind, tag):
    if kind == "BaseBoom":
        e = BaseBoom(tag)
    elif kind == "NotHandled":
        from effectful.ops.types import NotHandled

        e = NotHandled(tag)
    else:
        import builtins

        e = getattr(builtins, kind)(tag)
    e.tag = tag
    return e


def exc_name(e):
    return f"{type(e).__name__}#{getattr(e, 'tag', str(e)[:60])}"


def mix(*parts):
    return zlib.crc32(repr(parts).encode()) % 9973


# ---------------------------------------------------------------- generation

SIGS = ["0", "1", "k", "v"]


def gen_args(rng, sig):
    if sig == "0":
        return [[], {}]
    if sig == "1":
        return [[rng.randrange(9)], {}]
    if sig == "k":
        return rng.choice([[[rng.randrange(9)], {}], [[rng.randrange(9), rng.randrange(9)], {}],
                           [[rng.randrange(9)], {"y": rng.randrange(9)}]])
    return [[rng.randrange(9) for _ in range(rng.randrange(3))],
            rng.choice([{}, {"z": rng.randrange(9)}])]


class Gen:
    def __init__(self, rng, opts):
        self.rng, self.o = rng, opts
        self.hid = 0
        self.tid = 100
        n = rng.choice([1, 2, 2, 3, 3, 4])
        self.ops = []
        for i in range(n):
            d = rng.random()
            if d < 0.15:
                df = {"k": "nh"}
            elif d < 0.35 and i:
                df = {"k": "call", "op": rng.randrange(i)}
                df["x"] = gen_args(rng, self.ops[df["op"]]["sig"])
            else:
                df = {"k": "val"}
            self.ops.append({"sig": rng.choice(SIGS), "default": df})
        self.shared = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            self.shared.append(self.intp(1, allow_ref=False))

    def handler(self, depth, op):
        rng = self.rng
        self.hid += 1
        h = {"op": op, "hid": self.hid}
        if op == "apply":
            h["form"] = "var"
        else:
            r = rng.random()
            cands = [j for j in range(op) if self.ops[j]["sig"] == self.ops[op]["sig"]]
            if r < 0.08 and cands:
                h["form"] = "op"
                h["target"] = rng.choice(cands)
                h["body"] = []
                return h
            h["form"] = rng.choice(["exact", "exact", "var", "partial", "method", "callable"])
        h["body"] = self.body(depth + 1, handler=op)
        return h

    def intp(self, depth, allow_ref=True):
        rng = self.rng
        if allow_ref and self.shared and rng.random() < 0.4:
            return {"t": "ref", "i": rng.randrange(len(self.shared))}
        r = rng.random()
        if r < 0.22 and depth < 3:
            return {"t": "cop", "l": self.intp(depth + 1, allow_ref), "r": self.intp(depth + 1, allow_ref)}
        ops = list(range(len(self.ops)))
        rng.shuffle(ops)
        pick = ops[: rng.choice([1, 1, 2, 3])]
        hs = [self.handler(depth, o) for o in pick]
        if rng.random() < self.o.get("apply", 0.08):
            hs.append(self.handler(depth, "apply"))
        return {"t": "obj" if r > 0.82 else "dict", "h": hs}

    def term(self, depth=0):
        rng = self.rng
        nh = [i for i, o in enumerate(self.ops) if o["default"]["k"] == "nh" and o["sig"] in ("1", "v", "0")]
        if not nh:
            return None
        op = rng.choice(nh)
        sig = self.ops[op]["sig"]
        n = {"0": 0, "1": 1, "v": rng.randrange(3)}[sig]
        args = []
        for _ in range(n):
            sub = self.term(depth + 1) if depth < 2 and rng.random() < 0.5 else None
            args.append(sub if sub is not None else rng.randrange(9))
        return {"op": op, "args": args}

    def body(self, depth, handler=None, in_interp=False):
        rng, o = self.rng, self.o
        out = []
        for _ in range(rng.choice([1, 1, 2, 2, 3]) if handler is not None else rng.choice([1, 2, 3, 4])):
            r = rng.random()
            can_fwd = handler is not None and not in_interp
            if can_fwd and r < 0.42:
                if rng.random() < 0.3 and handler != "apply":
                    out.append({"a": "fwd", "x": gen_args(rng, self.ops[handler]["sig"])})
                else:
                    out.append({"a": "fwd"})
            elif r < 0.66:
                op = rng.randrange(len(self.ops))
                out.append({"a": "call", "op": op, "x": gen_args(rng, self.ops[op]["sig"])})
            elif r < 0.84 and depth < 3:
                via = rng.choice(["cm", "cm", "cm", "deco", "interp", "interpdeco"])
                out.append({"a": "with", "intp": self.intp(depth + 1), "via": via,
                            "body": self.body(depth + 1, handler, in_interp or via.startswith("interp"))})
                op = rng.randrange(len(self.ops))
                out.append({"a": "call", "op": op, "x": gen_args(rng, self.ops[op]["sig"])})
            elif r < 0.90:
                out.append({"a": "try", "k": rng.choice(["E", "E", "B"]),
                            "body": self.body(depth + 1, handler, in_interp)})
            elif r < 0.90 + o.get("raise", 0.02):
                out.append({"a": "raise", "k": rng.choice(EXC_KINDS)})
            elif r < 0.96:
                t = self.term()
                if t is not None:
                    a = {"a": "eval", "term": t}
                    if rng.random() < 0.5:
                        a["intp"] = self.intp(depth + 1)
                    out.append(a)
            elif o.get("spawn") and depth < 3 and self.tid < 103:
                self.tid += 1
                out.append({"a": "spawn", "id": self.tid, "body": self.body(2)})
            else:
                out.append({"a": "pt"})
        return out


# ---------------------------------------------------------------- shared program runner


class Ctx:
    """Per-thread state of one execution (real or reference)."""

    def __init__(self, tid, faults, fuel):
        self.tid, self.fuel = tid, fuel
        self.log = []
        self.visits = 0
        self.faults = faults
        self.muted = 0
        self.raised = 0


class Engine:
    def __init__(self, plan):
        self.plan = plan
        self.by_tid = {}
        self.faults = {}
        for f in plan.get("faults", ()):
            self.faults[(f["site"], f["nth"])] = f["kind"]

    def new_ctx(self, tid):
        c = Ctx(tid, self.faults, self.plan["fuel"])
        self.by_tid[tid] = c
        return c

    def ev(self, c, *e):
        if not c.muted:
            c.log.append(e)

    def visit(self, c, where):
        """A fault point: entry and exit of every handler, default and block."""
        if c.muted:
            return
        n = c.visits
        c.visits += 1
        k = self.faults.get((f"T{c.tid}", n))
        if k is not None:
            self.on_fault(k)
            self.ev(c, "fault", where, k)
            raise make_exc(k, f"T{c.tid}.{n}")

    def on_fault(self, k):
        pass

    # ---- program semantics (identical for both engines)
    def run_body(self, c, acts, frame):
        out = []
        for a in acts:
            out.append(self.canon(self.act(c, a, frame)))
        return mix(*out) if out else 0

    def act(self, c, a, frame):
        k = a["a"]
        if k == "call":
            if c.fuel <= 0:
                return "nofuel"
            c.fuel -= 1
            args, kw = a["x"]
            return self.call(c, a["op"], tuple(args), dict(kw))
        if k == "fwd":
            if frame is None or c.fuel <= 0:
                return "nofwd"
            c.fuel -= 1
            if "x" in a:
                return self.fwd(c, frame, tuple(a["x"][0]), dict(a["x"][1]))
            return self.fwd(c, frame, None, None)
        if k == "with":
            inner = None if a["via"].startswith("interp") else frame

            def thunk():
                self.visit(c, "enter")
                self.ev(c, "in")
                r = self.run_body(c, a["body"], inner)
                self.visit(c, "leave")
                return r

            try:
                r = self.with_(c, a["intp"], a["via"], thunk)
            except BaseException as e:
                self.ev(c, "out!", exc_name(e))
                raise
            self.ev(c, "out", self.canon(r))
            return r
        if k == "try":
            try:
                return self.run_body(c, a["body"], frame)
            except Exception as e:
                self.ev(c, "caught", exc_name(e))
                return exc_name(e)
            except BaseException as e:
                if a["k"] != "B":
                    raise
                self.ev(c, "caughtB", exc_name(e))
                return exc_name(e)
        if k == "raise":
            c.raised += 1
            raise make_exc(a["k"], f"R{c.tid}.{c.raised}")
        if k == "eval":
            if c.fuel <= 0:
                return "nofuel"
            c.fuel -= 2
            r = self.evaluate(c, a["term"], a.get("intp"))
            self.ev(c, "eval", self.canon(r))
            return r
        if k == "pt":
            self.pt(c)
            return None
        if k == "spawn":
            self.spawn(c, a)
            return None
        raise core.HarnessError(f"unknown action {k}")

    def run_handler(self, c, h, args, kw, frame):
        self.ev(c, "h", h["hid"], self.canon(args), self.canon(kw))
        self.visit(c, "h")
        inner = self.run_body(c, h["body"], frame)
        self.visit(c, "hx")
        r = mix(h["hid"], self.canon(args), self.canon(kw), inner)
        self.ev(c, "r", h["hid"], r)
        return r

    def run_default(self, c, i, args, kw):
        op = self.plan["ops"][i]
        d = op["default"]
        self.ev(c, "d", i, self.canon(args), self.canon(kw))
        self.visit(c, "d")
        if d["k"] == "nh":
            raise make_exc("NotHandled", "")
        sub = 0
        if d["k"] == "call" and c.fuel > 0:
            c.fuel -= 1
            sub = self.canon(self.call(c, d["op"], tuple(d["x"][0]), dict(d["x"][1])))
        return mix("d", i, self.canon(args), self.canon(kw), sub)

    def thread_main(self, c, body):
        try:
            self.run_body(c, body, None)
        except BaseException as e:
            self.ev(c, "thread!", exc_name(e))
        # after everything was left: only default behaviour remains
        c.faults = None
        c.muted = 0
        self.faults_off(c)
        for i, op in enumerate(self.plan["ops"]):
            c.fuel = 3
            args, kw = {"0": ((), {}), "1": ((1,), {}), "k": ((1,), {}), "v": ((1, 2), {})}[op["sig"]]
            try:
                r = self.canon(self.call(c, i, args, kw))
            except BaseException as e:
                r = exc_name(e)
            self.ev(c, "final", i, r)

    def faults_off(self, c):
        c.visits = 1 << 40


class RefTerm:
    def __init__(self, op, args, kw):
        self.op, self.args, self.kw = op, args, kw


class Ref(Engine):
    """The reference dispatcher."""

    def __init__(self, plan):
        super().__init__(plan)
        self.cur = {}
        self.seen = set()
        self.spawned = []

    def canon(self, x):
        if isinstance(x, RefTerm):
            return ("term", x.op, self.canon(x.args), self.canon(x.kw))
        if isinstance(x, tuple | list):
            return tuple(self.canon(v) for v in x)
        if isinstance(x, dict):
            return tuple(sorted((k, self.canon(v)) for k, v in x.items()))
        return x

    def chains(self, intp):
        if intp["t"] == "ref":
            return self.chains(self.plan["shared"][intp["i"]]) if intp["i"] < len(self.plan["shared"]) else {}
        if intp["t"] == "cop":
            left, right = self.chains(intp["l"]), self.chains(intp["r"])
            out = dict(left)
            for k, v in right.items():
                out[k] = v + left.get(k, [])
            return out
        return {h["op"]: [h] for h in intp["h"]}

    def with_(self, c, intp, via, thunk):
        old = self.cur[c.tid]
        new = self.chains(intp)
        if via.startswith("interp"):
            self.cur[c.tid] = new
        else:
            m = dict(old)
            for k, v in new.items():
                m[k] = v + old.get(k, [])
            self.cur[c.tid] = m
        try:
            return thunk()
        finally:
            self.cur[c.tid] = old

    def call(self, c, op, args, kw):
        chain = self.cur[c.tid].get(op)
        if chain:
            return self.step(c, op, chain, 0, args, kw)
        ap = self.cur[c.tid].get("apply")
        if ap and op != "apply":
            return self.step(c, "apply", ap, 0, (("op", op), *args), kw)
        return self.default(c, op, args, kw)

    def step(self, c, op, chain, i, args, kw):
        if i >= len(chain):
            if op == "apply":
                return self.default(c, args[0][1], args[1:], kw)
            return self.default(c, op, args, kw)
        h = chain[i]
        if h["form"] == "op":
            return self.call(c, h["target"], args, kw)
        return self.run_handler(c, h, args, kw, (op, chain, i, args, kw))

    def fwd(self, c, frame, args, kw):
        op, chain, i, a0, k0 = frame
        if args is None or (not args and not kw):
            args, kw = a0, k0
        return self.step(c, op, chain, i + 1, args, kw)

    def default(self, c, op, args, kw):
        from effectful.ops.types import NotHandled

        if self.plan["ops"][op]["sig"] == "k" and len(args) == 1 and "y" not in kw:
            fargs, fkw = (args[0], 7), {}
        elif self.plan["ops"][op]["sig"] == "k" and "y" in kw:
            fargs, fkw = (args[0], kw["y"]), {}
        else:
            fargs, fkw = args, kw
        try:
            return self.run_default(c, op, fargs, fkw)
        except NotHandled:
            # free rule: the term normalises keyword arguments and defaults
            return RefTerm(op, fargs, fkw)

    def evaluate(self, c, term, intp):
        if intp is not None:
            return self.with_(c, intp, "interp", lambda: self.ev_term(c, term))
        return self.ev_term(c, term)

    def ev_term(self, c, t):
        args = tuple(self.ev_term(c, a) if isinstance(a, dict) else a for a in t["args"])
        return self.call(c, t["op"], args, {})

    def pt(self, c):
        pass

    def spawn(self, c, a):
        if a["id"] not in self.seen:
            self.seen.add(a["id"])
            self.spawned.append(a)

    def run_all(self):
        todo = [(t["id"], t["body"]) for t in self.plan["threads"]]
        while todo:
            tid, body = todo.pop(0)
            self.cur[tid] = {}
            c = self.new_ctx(tid)
            self.spawned = []
            self.thread_main(c, body)
            todo += [(s["id"], s["body"]) for s in self.spawned]
        return {tid: c.log for tid, c in self.by_tid.items()}


class Real(Engine):
    def __init__(self, plan, sim):
        super().__init__(plan)
        from effectful.internals.runtime import interpreter
        from effectful.ops.semantics import apply, coproduct, evaluate, fwd, handler
        from effectful.ops.syntax import ObjectInterpretation, implements
        from effectful.ops.types import Operation, Term

        self.sim = sim
        self.Operation, self.Term = Operation, Term
        self.m = dict(interpreter=interpreter, handler=handler, coproduct=coproduct, fwd=fwd,
                      evaluate=evaluate, apply=apply, OI=ObjectInterpretation, implements=implements)
        self.ops = [self.make_op(i) for i in range(len(plan["ops"]))]
        self.index = {id(o): i for i, o in enumerate(self.ops)}
        self._intps = {}
        self.prebuild(plan["threads"])
        for i in range(len(plan["shared"])):
            self.intp({"t": "ref", "i": i})

    def on_fault(self, k):
        self.sim.fired[k] += 1

    def prebuild(self, node):
        """Interpretations are built before the threads start (class creation is another property)."""
        if isinstance(node, dict):
            for k, v in node.items():
                if k == "intp":
                    self.intp(v)
                self.prebuild(v)
        elif isinstance(node, list):
            for v in node:
                self.prebuild(v)

    def me(self):
        m = core._me()
        return self.by_tid[m[1].tid]

    def canon(self, x):
        if isinstance(x, self.Term):
            i = self.index.get(id(x.op), "?")
            return ("term", i, self.canon(tuple(x.args)), self.canon(dict(x.kwargs)))
        if isinstance(x, self.Operation):
            return ("op", self.index.get(id(x), "?"))
        if isinstance(x, tuple | list):
            return tuple(self.canon(v) for v in x)
        if isinstance(x, dict):
            return tuple(sorted((k, self.canon(v)) for k, v in x.items()))
        return x

    def make_op(self, i):
        sig = self.plan["ops"][i]["sig"]
        run = lambda a, k: self.run_default(self.me(), i, a, k)  # noqa: E731
        if sig == "0":
            def d():
                return run((), {})
        elif sig == "1":
            def d(x):
                return run((x,), {})
        elif sig == "k":
            def d(x, y=7):
                return run((x, y), {})
        else:
            def d(*args, **kwargs):
                return run(args, kwargs)
        d.__name__ = d.__qualname__ = f"op{i}"
        return self.Operation.define(d)

    def make_handler(self, h):
        form = h["form"]
        fr = (h,)
        if form == "op":
            return self.ops[h["target"]]

        def run(a, k):
            return self.run_handler(self.me(), h, a, k, fr)

        if form in ("var", "partial", "method", "callable") or h["op"] == "apply":
            if form == "partial":
                return functools.partial(lambda tag, *a, **k: run(a, k), "tag")
            if form == "method":
                class M:
                    def go(self, *a, **k):
                        return run(a, k)
                return M().go
            if form == "callable":
                class C:
                    def __call__(self, *a, **k):
                        return run(a, k)
                return C()
            return lambda *a, **k: run(a, k)
        sig = self.plan["ops"][h["op"]]["sig"]
        if sig == "0":
            return lambda: run((), {})
        if sig == "1":
            return lambda x: run((x,), {})
        if sig == "k":
            return lambda *a, **k: run(a, k)
        return lambda *a, **k: run(a, k)

    def intp(self, spec):
        if spec["t"] == "ref":
            if spec["i"] >= len(self.plan["shared"]):
                return {}
            spec = self.plan["shared"][spec["i"]]
        key = id(spec)
        if key in self._intps:
            return self._intps[key]
        if spec["t"] == "cop":
            r = self.m["coproduct"](self.intp(spec["l"]), self.intp(spec["r"]))
        else:
            d = {}
            for h in spec["h"]:
                self.prebuild(h["body"])
                op = self.m["apply"] if h["op"] == "apply" else self.ops[h["op"]]
                d[op] = self.make_handler(h)
            if spec["t"] == "obj":
                ns = {}
                for n, (op, fn) in enumerate(d.items()):
                    ns[f"m{n}"] = self.m["implements"](op)(self._as_method(fn))
                r = type("H", (self.m["OI"],), ns)()
            else:
                r = d
        self._intps[key] = r
        return r

    @staticmethod
    def _as_method(fn):
        def method(self, *a, **k):
            return fn(*a, **k)
        return method

    # ---- engine operations on the real library
    def call(self, c, op, args, kw):
        return self.ops[op](*args, **kw)

    def fwd(self, c, frame, args, kw):
        if args is None:
            return self.m["fwd"]()
        return self.m["fwd"](*args, **kw)

    def with_(self, c, intp, via, thunk):
        i = self.intp(intp)
        if via == "cm":
            with self.m["handler"](i):
                return thunk()
        if via == "deco":
            return self.m["handler"](i)(thunk)()
        if via == "interp":
            with self.m["interpreter"](i):
                return thunk()
        return self.m["interpreter"](i)(thunk)()

    def evaluate(self, c, term, intp):
        # terms are built without the fault plan: they are data here
        c.muted += 1
        fuel = c.fuel
        try:
            with self.m["interpreter"]({}):
                t = self.build(term)
        finally:
            c.muted -= 1
            c.fuel = fuel
        if intp is not None:
            return self.m["evaluate"](t, intp=self.intp(intp))
        return self.m["evaluate"](t)

    def build(self, t):
        return self.ops[t["op"]](*[self.build(a) if isinstance(a, dict) else a for a in t["args"]])

    def pt(self, c):
        self.sim.point("pt")

    def spawn(self, c, a):
        if a["id"] in self.by_tid:
            return
        self.new_ctx(a["id"])
        s = self.sim.sched
        s.spawn(f"T{a['id']}", lambda: self.thread_main(self.by_tid[a["id"]], a["body"]), tid=a["id"])


class Dispatch(Scenario):
    name = "dispatch"

    def setup(self):
        import effectful.internals.product_n
        import effectful.internals.runtime
        import effectful.internals.unification
        import effectful.ops.semantics
        import effectful.ops.syntax  # noqa: F401

    def generate(self, rng, prop, tier):
        opts = {}
        serial = False
        if prop == "C01":
            nthreads = rng.choice([2, 2, 3])
            opts["spawn"] = rng.random() < 0.4
            nf = rng.choice([0, 0, 0, 1])
        elif prop == "C02":
            nthreads = rng.choice([1, 1, 1, 2])
            opts["raise"] = 0.05
            nf = rng.choice([1, 1, 2, 3, 5])
            serial = nthreads == 1
        else:
            nthreads = rng.choice([1, 1, 2, 2])
            opts["apply"] = 0.15
            opts["raise"] = 0.03
            nf = rng.choice([0, 1, 2])
        g = Gen(rng, opts)
        threads = [{"id": i, "body": g.body(0)} for i in range(nthreads)]
        plan = {"ops": g.ops, "shared": g.shared, "threads": threads, "fuel": rng.choice([8, 15, 30])}
        # place faults where they fire: visits are counted with a dry reference run
        plan["faults"] = []
        if nf:
            cands = [(tid, n) for tid, n in self._visits(plan)]
            for _ in range(nf):
                if cands:
                    tid, n = rng.choice(cands)
                    plan["faults"].append({"site": f"T{tid}", "nth": n, "kind": rng.choice(EXC_KINDS)})
        plan["policy"] = {"kind": "serial", "seed": 0} if serial else core.gen_policy(rng, 1500)
        plan["opcodes"] = (not serial) and rng.random() < 0.3
        return plan

    @staticmethod
    def _visits(plan):
        class V(Ref):
            def faults_off(self, c):
                c.n_visits = c.visits
                super().faults_off(c)

        r = V(plan)
        r.run_all()
        return [(tid, n) for tid, c in r.by_tid.items() for n in range(min(c.n_visits, 120))]

    def execute(self, plan, sim):
        want = Ref(plan).run_all()
        real = Real(plan, sim)
        serial = plan["policy"]["kind"] == "serial"
        s = core.Scheduler(sim, plan["policy"], opcodes=plan.get("opcodes", False), trace=not serial)
        sim.last_sched = s
        for t in plan["threads"]:
            real.new_ctx(t["id"])
            s.spawn(f"T{t['id']}", lambda t=t: real.thread_main(real.by_tid[t["id"]], t["body"]), tid=t["id"])
        from effectful.internals import runtime

        ci = getattr(runtime.get_runtime, "cache_info", None)
        if ci is not None and ci().currsize == 0:
            sim.probe("first_use_inside_run")
        out = s.run()
        for name, o in out.items():
            if o[0] == "err":
                raise core.HarnessError(f"{name}: {o[1]!r}")
        got = {tid: c.log for tid, c in real.by_tid.items()}
        for tid in sorted(got):
            sim.event(tid, tuple(got[tid]))
        sim.probes["events"] += sum(map(len, got.values()))
        if len(got) > 1:
            sim.probe("multi_thread")
        if sum(1 for log in got.values() for e in log if e[0] in "hd") >= 2:
            sim.probe("nontrivial")
        for tid in sorted(set(want) | set(got)):
            a, b = got.get(tid), want.get(tid)
            if a != b:
                self.explain(tid, a, b)

    @staticmethod
    def explain(tid, a, b):
        a, b = a or [], b or []
        n = 0
        while n < min(len(a), len(b)) and a[n] == b[n]:
            n += 1
        x = a[n] if n < len(a) else "<end>"
        y = b[n] if n < len(b) else "<end>"
        raise core.Violation("dispatch-mismatch",
                             f"thread {tid} event {n}: library did {x!r}, handler semantics require {y!r}; "
                             f"before that: {a[max(0, n - 6):n]!r}")
