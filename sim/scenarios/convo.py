"""L01-L07: conversations with a simulated model.

Threads call prompt templates (plain, and on agents with memory) through the library's
provider, retry handler and observers; the simulated model answers from a script with
good, truncated, malformed, wrongly typed and empty replies, tool calls (decodable or
not), network errors, latency; tools fail, are interrupted, or call the model themselves.
Every request, tool run, wait, outcome and memory is compared with the reference model."""

from __future__ import annotations

import contextlib
import json

from .. import core, llm_world
from ..base import Scenario

STRS = ["hello", "", "two\nlines", "{q} {x}", "ünï – ©", "a" * 200, '{"value": 3}', "Q0", "0", "null", "  pad  "]
ORD = ["ValueError", "RuntimeError", "KeyError", "TimeoutError", "ConnectionError", "AppError", "StopIteration", "AssertionError", "TypeError", "MemoryError"]
INTR = ["KeyboardInterrupt", "SystemExit", "AppInterrupt", "GeneratorExit"]


class Gen:
    def __init__(self, rng, prop):
        self.rng, self.prop = rng, prop
        self.n = 0
        self.k = 0
        self.budget = 14
        self.vague = False  # a nested call fails in a way whose exception type is not specified

    def cid(self):
        self.n += 1
        return self.n

    def key(self):
        self.k += 1
        return self.k

    def val(self, kind):
        r = self.rng
        if kind in llm_world.KINDS:
            return llm_world.kind_value(kind, r)
        if kind == "str":
            return r.choice([s for s in STRS if s])
        if kind == "int":
            return r.choice([0, 1, -5, 10**12])
        if kind == "points":
            return [[r.randrange(9), r.randrange(9)] for _ in range(r.choice([0, 1, 2]))]
        return [r.randrange(9), r.randrange(9)]

    def bad(self, kind):
        """An undecodable final reply for a template of this return kind."""
        r = self.rng
        u = self.key()
        if kind == "str":
            return None
        good = json.dumps({"value": llm_world.as_json(kind, llm_world.DEFAULTS[kind])})
        how = r.choice(["type"] * (6 if kind in llm_world.KINDS else 1) + ["plain", "cut", "cut", "type", "novalue", "list", "extra", "around", "around", "null", "app", "app", "interrupt"])
        if how == "app" and kind in ("points", "point"):
            v = [r.choice([666, 668]), u]
            return {"k": "bad", "raw": json.dumps({"value": llm_world.as_json(kind, [v] if kind == "points" else v)}), "tok": [f"bad point {u}"]}
        if how == "interrupt" and kind in ("points", "point") and r.random() < 0.4:
            v = [667, u]
            return {"k": "bad", "raw": json.dumps({"value": llm_world.as_json(kind, [v] if kind == "points" else v)}), "interrupt": "KeyboardInterrupt"}
        tok0 = [f"tok{u}"]
        if how in ("type", "null", "app", "interrupt") and kind in llm_world.KINDS:
            v, tok0 = llm_world.kind_bad(kind, r, u)
            return {"k": "bad", "raw": json.dumps({"value": v}), "tok": tok0}
        raw = {"plain": f"sorry tok{u}", "cut": good[: r.randrange(1, len(good))],
               "type": json.dumps({"value": f"tok{u}"}), "novalue": json.dumps({f"val{u}": 1}),
               "list": "[]", "extra": good + "}", "around": r.choice([
                   f"I think it is {good}", f"{good} tok{u}", f"```json\n{good}\n```", f"```\n{good}\n```", good + good, f"{good}\n{good}", json.dumps(good),
                   f"[{good}]", good[:-1] + ",}", good.replace('"', "'"), f'{{"result": {good}}}',
                   good + ";", "\ufeff" + good, good.replace('"value"', '"Value"'), good.replace('"value"', '" value"'), f"<json>{good}</json>"]), "null": json.dumps({"value": None})}.get(how) or f"tok{u}"
        try:
            json.loads(raw)
            tok = [f"tok{u}"] if how == "type" else []
        except ValueError as e:
            tok = [str(e)]
        b = {"k": "bad", "raw": raw, "tok": tok}
        if how == "cut":
            b["finish"] = "length"
        return b

    def kindcalls(self, t):
        """Tools offered to templates of the third module only."""
        return ["mix", "mix"] if t is not None and t[4:] in llm_world.KINDS else []

    def do(self, tool, depth, agents, cls):
        r = self.rng
        x = r.random()
        pn = 0.5 if self.prop == "L07" else 0.15
        if tool == "echo" and depth < 2 and self.budget > 3 and x < pn:
            return {"nest": self.call(agents, depth + 1), "swallow": r.random() < 0.3}
        if x < 0.62:
            if tool == "points":
                return {"ret": [[r.randrange(9), r.randrange(9)] for _ in range(r.choice([1, 2]))]}
            if tool == "mix":
                return {"ret": llm_world.kind_value("out", r)}
            return {"ret": r.choice([3, -1, 10**9]) if tool == "add" else r.choice(STRS[:6])}
        if x < 0.9:
            return {"raise": r.choice(ORD if r.random() < 0.8 else INTR)}
        if x < 0.95:
            self.vague = self.vague or depth > 0
            return {"unenc": 1}
        if tool == "mix":
            return {"ret": llm_world.DEFAULTS["out"], "lat": 0.5}
        return {"ret": 5 if tool == "add" else ([[1, 1]] if tool == "points" else "slow"), "lat": r.choice([0.5, 3.0])}

    def toolcall(self, depth, agents, cls, good, ids, outer):
        r = self.rng
        k = self.key()
        tools = ["add", "echo", "echo"] + (["self__note"] if cls in ("Clerk", "Chief") else [])
        t = r.choice(tools + (self.kindcalls(outer) or ["points"]))
        tid = r.choice([f"call_{k}", f"call_{k}", f"call_{r.randrange(4)}"])
        while tid in ids:
            tid += "x"
        ids.add(tid)
        if r.random() < (0.25 if self.prop == "L07" else 0.08) and depth < 2 and self.budget > 3 and good:
            sub = self.call(agents, depth + 1, plain=outer)
            return {"id": tid, "tool": sub["t"], "k": k, "tmpl": 1, "nest": sub, "args": {}}
        base = t.split("__")[-1]
        args = {"add": lambda: {"a": r.randrange(99), "b": r.choice([0, -7])},
                "echo": lambda: {"s": r.choice(STRS)},
                "note": lambda: {"s": r.choice(STRS)},
                "mix": lambda: self.mix(),
                "points": lambda: {"ps": [{"x": r.randrange(9), "y": 1} for _ in range(r.choice([0, 1, 2]))]}}[base]()
        tc = {"id": tid, "tool": t, "k": k, "args": args}
        if good:
            tc["do"] = self.do(base, depth, agents, cls)
        else:
            tc["bad"] = r.choice(["json", "unknown", "extra", "type", "missing", "notobj"] + (["nested"] * 5 if t == "mix" else []))
            tc["do"] = {"ret": 0}
            if tc["bad"] == "nested":
                tc["at"] = r.choice("pdncz")
                tc["with"], tc["tok"] = llm_world.kind_bad({"p": "pair", "d": "table", "n": "opt", "c": "color", "z": "cpx"}[tc["at"]], r, k)
        return tc

    def mix(self):
        r = self.rng
        a = {"p": llm_world.kind_value("pair", r), "d": llm_world.kind_value("table", r)}
        for n, kind in (("n", "opt"), ("c", "color"), ("z", "cpx")):
            if r.random() < 0.4:
                a[n] = llm_world.kind_value(kind, r)
        if r.random() < 0.3:
            a = dict(reversed(a.items()))
        return a

    def call(self, agents, depth=0, plain=None):
        r = self.rng
        self.budget -= 1
        cid = self.cid()
        usable = agents
        if usable and not plain and r.random() < (0.3 if self.kinds else 0.75):
            on = r.choice(usable)
            t = r.choice(llm_world.AGENT_CLASSES[self.agents[on]["cls"]])
            cls = self.agents[on]["cls"]
        else:
            on, cls = None, None
            # a template is not offered to itself
            ks = [f"ask_{k}" for k in self.kinds]
            pool = ["ask_text", "ask_num", "ask_points"] + ks
            if plain:  # called by the model: what the calling template's module has
                pool = ["ask_text", "ask_num"] + (ks if plain[4:] in llm_world.KINDS else ["ask_points"])
            elif ks and r.random() < 0.6:
                pool = ks
            t = r.choice([n for n in pool if n != plain])
        kind = llm_world.TEMPLATES[t][1]
        x = [r.randrange(9) for _ in range(r.choice([0, 2]))] if t == "ask_points" else r.choice(STRS)
        if kind in llm_world.KINDS:
            x = llm_world.kind_value(kind, r)
        script = []
        pbad = {"L03": 0.55, "L02": 0.35, "L01": 0.3, "L05": 0.4}.get(self.prop, 0.2)
        ptool = {"L04": 0.6, "L07": 0.6, "L02": 0.5}.get(self.prop, 0.35)
        for _ in range(r.choice([1, 2, 3, 4])):
            if self.budget <= 0:
                break
            y = r.random()
            if y < pbad:
                self.budget -= 1
                b = self.bad(kind) if r.random() < 0.6 else None
                if b is None:  # an undecodable tool call, possibly next to good ones
                    ids: set = set()
                    n = r.choice([1, 1, 2, 3])
                    w = r.randrange(n)
                    b = {"k": "tools", "calls": [self.toolcall(depth, agents, cls, i != w and r.random() < 0.7, ids, t) if i != w else
                                                 self.toolcall(depth, agents, cls, False, ids, t) for i in range(n)]}
                script.append(b)
            elif y < pbad + ptool:
                self.budget -= 1
                ids = set()
                script.append({"k": "tools", "content": r.choice([None, None, "thinking"]),
                               "calls": [self.toolcall(depth, agents, cls, True, ids, t) for _ in range(r.choice([1, 1, 2, 3]))]})
            elif y < pbad + ptool + 0.07:
                script.append({"k": "err", "exc": r.choice(ORD if r.random() < 0.7 else INTR), "n": self.key()})
                if r.random() < 0.7:
                    break
            elif y < pbad + ptool + 0.10:
                script.append({"k": "empty", "content": r.choice([None, ""])} if r.random() < 0.7 else {"k": "nochoice"})
            else:
                break
        script.append({"k": "final", "v": self.val(kind)})
        for rep in script:
            if r.random() < 0.1:
                rep["lat"] = r.choice([0.25, 2.0, 30.0])
            if depth and rep["k"] in ("empty", "nochoice"):
                self.vague = True
            if r.random() < 0.05:
                rep["jump"] = r.choice([-3600.0, -1.0, 86400.0])
        return {"cid": cid, "on": on, "t": t, "x": x, "script": script}


def gen_retry(r, threads):
    stop = ["attempt", r.choice([1, 2, 2, 3, 4])]
    if threads == 1 and r.random() < 0.12:
        stop = ["delay", r.choice([1.0, 5.0, 20.0])]
    return {"stop": stop, "tb": r.random() < 0.5, "catch": r.choice(["Exception", "Exception", "ValueError", "AppError", "none"]),
            "wait": r.choice([None, None, ["fixed", 1.5], ["inc", 1.0, 2.0]]) if stop[0] == "attempt" else r.choice([["fixed", 1.5], ["inc", 1.0, 2.0]]),
            "cb": r.random() < 0.3}


class Convo(Scenario):
    name = "convo"
    groups = ("llm",)

    def setup(self):
        llm_world.setup()

    def generate(self, rng, prop, tier):
        g = Gen(rng, prop)
        nt = rng.choice([2, 2, 3]) if prop in ("L06", "C04") else rng.choice([1, 1, 1, 1, 2])
        g.budget = 9 if nt > 1 else 14
        g.kinds = []
        if rng.random() < {"L05": 0.7, "L03": 0.4, "C04": 0.0}.get(prop, 0.25):
            g.kinds = rng.sample(llm_world.KINDS, rng.choice([1, 2, 3]))
            if rng.random() < 0.35:
                g.kinds = rng.choice([["itema", "itemb"], ["pic", "pics"]])
        g.agents = agents = []
        threads = []
        for t in range(nt):
            own = []
            for _ in range(rng.choice([1, 1, 2]) if nt < 3 else 1):
                own.append(len(agents))
                agents.append({"cls": rng.choice(["Clerk", "Clerk", "Scout", "Scout", "Ranger", "Chief"]), "name": f"A{len(agents)}"})
            g.budget = 14 if nt == 1 else (3 if prop == "C04" else 6)
            calls = []
            while g.budget > 0 and len(calls) < rng.choice([1, 2, 3, 4]):
                calls.append(g.call(own))
            th = {"id": t, "agents": own, "calls": calls, "retry": gen_retry(rng, nt)}
            threads.append(th)
        pr = {"L03": 0.97, "L01": 0.6, "L04": 0.6}.get(prop, 0.65)
        retry = gen_retry(rng, nt) if rng.random() < pr else None
        if g.vague:
            for r in [retry, *[t["retry"] for t in threads]]:
                if r and r["catch"] == "ValueError":
                    r["catch"] = "AppError"
        plan = {"agents": agents, "threads": threads, "retry": retry, "own_retry": retry is not None and rng.random() < 0.2,
                "observer": rng.random() < 0.6, "lean": rng.random() < 0.75, "split": rng.random() < 0.3,
                "main_agents": rng.random() < 0.7,
                "policy": core.gen_policy(rng, 20000), "opcodes": False, "faults": []}
        nf = rng.choice([0, 0, 1, 1, 2]) if prop != "L06" else rng.choice([0, 0, 0, 1])
        for _ in range(nf):
            cid = rng.randrange(1, g.n + 1)
            site = rng.choice(["system.pre", "user.pre", "user.post", "assistant.pre", "assistant.post", "tool.pre", "tool.post",
                               "completion.pre", "completion.post", "collect.pre", "sleep", "cb"])
            plan["faults"].append({"site": f"c{cid}.{site}", "nth": rng.choice([0, 0, 0, 1, 2]),
                                   "kind": rng.choice(ORD if rng.random() < 0.5 else INTR)})
        if plan["faults"]:
            plan["observer"] = True
        if plan["main_agents"]:
            # threads look at each other's agents (and keep what they got for their own calls)
            for th in threads:
                th["touch"] = [self._touch(rng, agents) for _ in range(rng.choice([0, 1, 3]) if prop != "C04" else rng.choice([1, 2, 4]))]
        if prop == "C04":
            plan["policy"] = core.gen_policy(rng, 3000)
            plan["opcodes"] = rng.random() < 0.3
        return plan

    @staticmethod
    def _touch(rng, agents):
        i = rng.randrange(len(agents))
        return [i, rng.choice(llm_world.AGENT_CLASSES[agents[i]["cls"]])]

    def execute(self, plan, sim):
        from effectful.handlers.llm.completions import LiteLLMProvider
        from effectful.ops.semantics import handler

        w = llm_world.World(plan, sim)
        llm_world._world = w
        from ..fixtures import convo as fx

        shared_provider = LiteLLMProvider(model="sim-model", temperature=0.5)
        shared_retry = w.retry_handler(plan["retry"]) if plan["retry"] else None

        def on_sleep(d):
            st = getattr(fx._local, "state", None)
            if st is None:
                return
            if d > 0:
                w.emit("sleep", d)
            if st.stack and not st.lat and d > 0:
                w.fault(f"c{st.stack[-1].call['cid']}.sleep")

        sim.on_sleep = on_sleep
        if plan["main_agents"]:
            w.agents = [w.make_agent(i) for i in range(len(plan["agents"]))]
        else:
            w.agents = [None] * len(plan["agents"])
        states = {}
        touched: list = []

        def body(t):
            model = f"model-{t['id']}" if plan["split"] else "sim-model"
            ref = llm_world.Ref(plan, t, model)
            ref.run()
            st = llm_world.ThreadState(ref, model)
            st.lat = 0
            states[t["id"]] = st
            fx._local.state = st
            fx._local.world = w
            fx._local.tid = t["id"]
            for i in t["agents"]:
                if w.agents[i] is None:
                    w.agents[i] = w.make_agent(i)
            provider = LiteLLMProvider(model=model, temperature=0.5) if plan["split"] else shared_provider
            retry = shared_retry
            if plan["own_retry"]:
                retry = w.retry_handler(t["retry"])
            frozen = {}
            fx._local.held = {}
            for i, n in t.get("touch", ()):
                if i < len(w.agents):
                    op = getattr(w.agents[i], n)
                    touched.append(((i, n), op))
                    fx._local.held[i, n] = op
            with contextlib.ExitStack() as stack:
                stack.enter_context(handler(provider))
                if retry is not None:
                    stack.enter_context(handler(retry))
                if plan["lean"]:
                    stack.enter_context(handler(w.lean()))
                if plan["observer"]:
                    stack.enter_context(handler(w.observer()))
                stack.enter_context(handler(w.frame_handler()))
                for c in t["calls"]:
                    try:
                        v = w.invoke(c)
                    except core.Violation:
                        raise
                    except BaseException as e:  # noqa: BLE001 - every outcome is judged
                        w.emit("exc", c["cid"], w.describe(e))
                    else:
                        w.emit("ret", c["cid"], llm_world.norm_value(v))
                    for i in t["agents"]:
                        h = json.dumps(list(w.agents[i].__history__.values()), default=repr)
                        old = frozen.get(i, "[]")
                        if not h.startswith(old[:-1]):
                            w.errors.append(("memory-rewritten", f"call {c['cid']} changed, dropped or reordered earlier messages of agent {i}"))
                        if i != c["on"] and h != old:
                            w.errors.append(("memory-mixed", f"call {c['cid']} on {c['on']} changed the memory of agent {i}"))
                        frozen[i] = h
                    if c["on"] is not None:
                        w.emit("hist", c["on"], w.history(c["on"]))
                    if st.stack:
                        raise core.Violation("unfinished-call", f"call {c['cid']} ended with calls still open")

        multi = len(plan["threads"]) > 1
        s = core.Scheduler(sim, plan["policy"], opcodes=plan["opcodes"], trace=multi)
        sim.last_sched = s
        for t in plan["threads"]:
            s.spawn(f"T{t['id']}", lambda t=t: body(t), tid=t["id"])
        out = s.run()
        for name, (kind, e) in out.items():
            if kind == "err":
                raise e
        for t in plan["threads"]:
            st = states[t["id"]]
            bad = llm_world.compare(st.exp, st.ev, f"thread {t['id']}")
            if w.errors:
                raise core.Violation(*w.errors[0])
            if bad:
                raise core.Violation(*bad)
        first: dict = {}
        for key, op in touched + [((i, n), getattr(w.agents[i], n)) for (i, n), _ in touched]:
            if first.setdefault(key, op) is not op:
                raise core.Violation("split-identity", f"accesses of template {key[1]} of agent {key[0]} gave different templates")
        if touched:
            sim.probe("touched")
        for st in states.values():
            for e in st.ev:
                sim.probe(e[0])
                if e[0] == "req" and len(e[3]) > 4:
                    sim.probe("long_conversation")
        if sum(len(st.ev) for st in states.values()) > 3:
            sim.probe("nontrivial")
