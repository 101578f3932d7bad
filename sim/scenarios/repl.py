"""L08 (and L07): the model's Python sessions.

The simulated model runs snippets through the library's session tool, in calls that
are nested (a snippet or a tool calls the model again), repeated, retried after invalid
code, aborted, and concurrent in several threads, under both evaluation providers. The
reference runs the same snippets with CPython's own exec in one dictionary per call.
The surrounding program prints too; none of a session's output may reach it."""

from __future__ import annotations

import contextlib
import json
import subprocess
import sys

from .. import core, llm_world
from ..base import Scenario


class SnipGen:
    NAMES = ["a", "b", "c", "x", "LIMIT"]

    def __init__(self, r, unsafe, sub):
        self.r, self.unsafe, self.sub = r, unsafe, sub
        self.n = 0

    def atom(self):
        r = self.r
        return r.choice([str(r.randrange(9)), r.choice(self.NAMES), r.choice(self.NAMES), f"f({r.randrange(5)})", "g()"])

    def expr(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return self.atom()
        if x < 0.8:
            return f"{self.atom()} + {self.atom()}"
        return f"[i * 2 for i in range({r.randrange(3)})]" if x < 0.9 else f"str({self.atom()})"

    def stmt(self, depth=0):
        r = self.r
        self.n += 1
        x = r.random()
        n = r.choice(self.NAMES)
        if x < 0.24:
            return [f"{n} = {self.expr()}"]
        if x < 0.42:
            return [f'print("t{self.n}", {self.expr()})']
        if x < 0.49:
            return [f"del {r.choice(self.NAMES + ['f'])}"]
        if x < 0.56:
            return ["def f(n):", f"    return n + {r.choice(self.NAMES)}"]
        if x < 0.60:
            return ["def f(n):", f"    global {r.choice(self.NAMES[:3])}", "    a = n", "    return n"] if r.random() < 0.3 else [
                "def f(n):", f"    global {n}" if n not in ("x",) else "    global b", f"    {n if n != 'x' else 'b'} = n * 10", "    return n"]
        if x < 0.65:
            return ["def g():", f'    print("g{self.n}", {r.choice(self.NAMES)})', "    return 1"]
        if x < 0.70:
            return [f'raise {r.choice(["ValueError", "RuntimeError", "KeyError", "KeyboardInterrupt"])}("e{self.n}")']
        if x < 0.715:
            return [f"raise SystemExit({self.n})"]
        if x < 0.80 and depth < 2:
            return ["try:", *("    " + s for s in self.stmt(depth + 1)), "except NameError:", f'    print("none{self.n}")']
        if x < 0.86 and depth < 2:
            return [f"for i in range({r.randrange(3)}):", *("    " + s for s in self.stmt(depth + 1))]
        if x < 0.90 and depth < 2:
            return [f"if {self.atom()} == {self.atom()}:", *("    " + s for s in self.stmt(depth + 1))]
        if x < 0.95 and self.sub:
            k = self.sub()
            return [f'print("s{self.n}", sub({k}))'] if k else ["pass"]
        if self.unsafe:
            return r.choice([["import sys", f'print("err{self.n}", file=sys.stderr)'], ["import math", f"{n} = math.floor(2.5)"],
                             [f"{n} += 1"], ["class K:", f"    v = {self.atom()}", "b = K.v"],
                             ["import sys", f'sys.stdout.write("w{self.n}\\n") and None']])
        return ["pass"]

    def snippet(self):
        out = []
        for _ in range(self.r.choice([1, 2, 2, 3, 4])):
            out += self.stmt()
        return "\n".join(out)


class Gen:
    def __init__(self, rng, plan, prop):
        self.rng, self.plan, self.prop = rng, plan, prop
        self.n = self.k = 0
        self.budget = 12

    def key(self):
        self.k += 1
        return self.k

    def call(self, own, depth=0):
        r = self.rng
        self.budget -= 1
        self.n += 1
        cid = self.n
        on = r.choice([None, *own, *own])
        t = "ask_text" if on is None else ("say" if self.plan["agents"][on]["cls"] == "Clerk" else "gist")
        subs = []

        def sub():
            if len(subs) >= 2 or depth >= 2:
                return None
            k = self.key()
            x = r.random()
            if x < (0.6 if self.prop == "L07" else 0.4) and self.budget > 2:
                do = {"nest": self.call(own, depth + 1), "swallow": r.random() < 0.4}
            elif x < 0.8:
                do = {"ret": "subval"}
            else:
                do = {"raise": r.choice(["ValueError", "KeyError", "KeyboardInterrupt"])}
            subs.append({"id": f"sub{k}", "tool": "sub", "k": k, "args": {}, "do": do})
            return k

        sg = SnipGen(r, self.plan["provider"] == "unsafe", sub)
        script = []
        for _ in range(r.choice([1, 2, 3, 4, 5])):
            if self.budget <= 0:
                break
            self.budget -= 1
            calls = []
            bad = self.plan["retry"] and r.random() < 0.12
            for j in range(r.choice([1, 1, 2])):
                k = self.key()
                if r.random() < 0.12:
                    do = {"ret": "hi"}
                    if depth < 2 and self.budget > 2 and r.random() < 0.7:
                        do = {"nest": self.call(own, depth + 1), "swallow": r.random() < 0.5}
                    calls.append({"id": f"call_{k}", "tool": "echo", "k": k, "args": {"s": "z"}, "do": do})
                else:
                    calls.append({"id": f"call_{k}", "tool": "exec_code", "k": k, "code": sg.snippet(), "args": {}})
            if bad:
                k = self.key()
                calls.append({"id": f"call_{k}", "tool": "exec_code", "k": k, "code": r.choice(["a = = 1", "def f(:\n pass", "for"]), "args": {}, "bad": "syntax"})
            script.append({"k": "tools", "calls": calls})
        script.append({"k": "final", "v": f"done{cid}"})
        return {"cid": cid, "on": on, "t": t, "x": "7", "script": script, "subs": subs}


class Capture:
    """The surrounding program's standard stream."""

    encoding = "utf-8"

    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)
        return len(s)

    def flush(self):
        pass


class Repl(Scenario):
    name = "repl"
    groups = ("llm",)

    def setup(self):
        import warnings

        warnings.simplefilter("ignore")
        llm_world.setup()
        real = subprocess.run

        def run(*a, **k):
            w = llm_world._world
            if w is None:
                return real(*a, **k)
            core.current().point("type checker")
            return subprocess.CompletedProcess(a[0] if a else k.get("args"), 0, "", "")

        subprocess.run = run

    def generate(self, rng, prop, tier):
        nt = rng.choice([1, 1, 2, 2, 3]) if prop == "L08" else rng.choice([1, 1, 1, 2])
        plan = {"agents": [], "threads": [], "provider": rng.choice(["unsafe", "restricted"]),
                "retry": {"stop": ["attempt", 3], "tb": rng.random() < 0.5, "catch": "Exception", "wait": None, "cb": False} if rng.random() < 0.7 else None,
                "observer": False, "lean": rng.random() < 0.8, "policy": core.gen_policy(rng, 20000), "opcodes": False, "faults": [],
                "host": rng.random() < 0.7}
        g = Gen(rng, plan, prop)
        for t in range(nt):
            own = []
            for _ in range(rng.choice([0, 1, 1])):
                own.append(len(plan["agents"]))
                plan["agents"].append({"cls": rng.choice(["Clerk", "Scout"]), "name": f"A{len(plan['agents'])}"})
            g.budget = 14 if nt == 1 else 6
            calls = []
            while g.budget > 0 and len(calls) < rng.choice([1, 2, 3]):
                calls.append(g.call(own))
            plan["threads"].append({"id": t, "agents": own, "calls": calls})
        return plan

    def execute(self, plan, sim):
        from effectful.handlers.llm.completions import LiteLLMProvider, PythonRepl
        from effectful.handlers.llm.evaluation import RestrictedEvalProvider, UnsafeEvalProvider
        from effectful.ops.semantics import handler

        w = llm_world.World(plan, sim)
        llm_world._world = w
        from ..fixtures import convo as fx

        before = dict(vars(fx))
        provider = LiteLLMProvider(model="sim-model")
        retry = w.retry_handler(plan["retry"]) if plan["retry"] else None
        evalp = UnsafeEvalProvider() if plan["provider"] == "unsafe" else RestrictedEvalProvider()
        repl = PythonRepl()
        w.agents = [w.make_agent(i) for i in range(len(plan["agents"]))]
        states = {}
        host: list = []
        for t in plan["threads"]:
            ref = llm_world.Ref(plan, t, "sim-model")
            ref.run()
            states[t["id"]] = llm_world.ThreadState(ref, "sim-model")

        def say(tid, what):
            if plan["host"]:
                line = f"[host {tid} {what}]"
                host.append(line)
                sys.stdout.write(line)
                sys.stderr.write(line)

        def body(t):
            fx._local.state = st = states[t["id"]]
            fx._local.world = w
            fx._local.tid = t["id"]
            with contextlib.ExitStack() as stack:
                for h in (provider, evalp, retry, repl, w.lean() if plan["lean"] else None, w.frame_handler()):
                    if h is not None:
                        stack.enter_context(handler(h))
                for c in t["calls"]:
                    say(t["id"], c["cid"])
                    try:
                        v = w.invoke(c)
                    except core.Violation:
                        raise
                    except BaseException as e:  # noqa: BLE001
                        w.emit("exc", c["cid"], w.describe(e))
                    else:
                        w.emit("ret", c["cid"], llm_world.norm_value(v))
                    say(t["id"], "after")
                    if c["on"] is not None:
                        w.emit("hist", c["on"], w.history(c["on"]))
                assert not st.stack

        w.on_tool = lambda name: getattr(fx._local, "inside", 0) == 0 and say("tool", name)
        real = sys.stdout, sys.stderr
        cap, caperr = Capture(), Capture()
        sys.stdout, sys.stderr = cap, caperr
        try:
            multi = len(plan["threads"]) > 1
            s = core.Scheduler(sim, plan["policy"], opcodes=plan["opcodes"], trace=multi)
            sim.last_sched = s
            for t in plan["threads"]:
                s.spawn(f"T{t['id']}", lambda t=t: body(t), tid=t["id"])
            out = s.run()
            after = sys.stdout, sys.stderr
        finally:
            sys.stdout, sys.stderr = real
        for name, (kind, e) in out.items():
            if kind == "err":
                raise e
        if w.errors:
            raise core.Violation(*w.errors[0])
        for t in plan["threads"]:
            st = states[t["id"]]
            bad = llm_world.compare(st.exp, st.ev, f"thread {t['id']}")
            if bad:
                raise core.Violation(*bad)
        if "".join(cap.text) != "".join(host):
            raise core.Violation("output-leak", f"the surrounding program's output is {''.join(cap.text)[:600]!r}, it printed {''.join(host)[:600]!r}")
        if "".join(caperr.text) != "".join(host):
            raise core.Violation("output-leak", f"the surrounding program's error output is {''.join(caperr.text)[:600]!r}, it printed {''.join(host)[:600]!r}")
        if after != (cap, caperr):
            sys.stdout, sys.stderr = after
            n = len(cap.text)
            print("probe")
            sys.stdout, sys.stderr = real
            if cap.text[n:] == []:
                raise core.Violation("stream-lost", "after all calls the surrounding program's standard output no longer reaches it")
        now = dict(vars(fx))
        if {k: id(v) for k, v in now.items()} != {k: id(v) for k, v in before.items()}:
            diff = [k for k in {*now, *before} if now.get(k) is not before.get(k)]
            raise core.Violation("binding-leak", f"the surrounding module's names {diff} were changed by a session")
        for st in states.values():
            for e in st.ev:
                sim.probe(e[0])
        if any(len(st.ev) > 3 for st in states.values()):
            sim.probe("nontrivial")
        sim.probe(plan["provider"])
