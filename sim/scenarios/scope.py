"""L11: the tools a request offers.

Generated modules define tools, prompt templates (some marked recursive), agents with
inherited and overridden tools, functions that define more of them, and plain values.
Threads call the templates while names are rebound and deleted (between calls, by the
tools themselves, in the model's Python session), and the simulated model picks tools
from what each request really offers. What is offered, what runs and what the readers
of variables return is compared with Python's own scoping rules."""

from __future__ import annotations

import contextlib
import json
import linecache
import sys
import threading
import types

from .. import core, llm_world
from ..base import Scenario

NAMES = ["alpha", "beta", "gamma", "delta", "omega", "kappa", "tau"]
METHODS = ["run", "look", "ask", "tell"]
PLAIN = [["int", 3], ["int", -7], ["str", "plain text"], ["list", [1, 2]], ["bool", True], ["float", 2.5], ["dict", {"k": 1}]]
HEADER = '''"""Module {name}"""
from typing import Annotated
from effectful.handlers.llm import Agent, Template, Tool
from effectful.handlers.llm.template import IsRecursive
from effectful.ops.types import NotHandled
'''


class Gen:
    def __init__(self, r):
        self.r = r
        self.n = 0

    def uid(self):
        self.n += 1
        return self.n

    def tmpl(self, name, shadows):
        r = self.r
        params = ["q"]
        if shadows and r.random() < 0.25:
            params.append(r.choice(shadows))
        return ["tmpl", name, self.uid(), int(r.random() < 0.25), params]

    def cls(self, name, bases, recursive_ok=True):
        r = self.r
        agent = r.random() < 0.8
        base = r.choice(bases) if bases and r.random() < 0.5 else None
        ms = []
        for m in r.sample(METHODS, r.choice([1, 2, 3])):
            kind = r.choice(["tool", "tool", "tmpl", "tmpl", "plain", "static", "none"])
            ms.append([m, kind, self.uid(), int(r.random() < 0.2)])
        return ["class", name, base, int(agent), ms]

    def items(self, n, fac, depth=0):
        """Statements of a module (fac=False) or function body."""
        r = self.r
        out: list = []
        bound: list = []
        classes: list = []
        for _ in range(n):
            x = r.random()
            name = r.choice(NAMES)
            if x < 0.28:
                out.append(["tool", name, self.uid()])
            elif x < 0.45:
                out.append(self.tmpl(name, bound))
            elif x < 0.60:
                c = f"C{self.uid()}"
                out.append(self.cls(c, classes))
                classes.append(c)
                for _ in range(r.choice([1, 1, 2])):
                    name = r.choice(NAMES)
                    out.append(["inst", name, c])
                    bound.append(name)
                continue
            elif x < 0.72:
                out.append(["plain", name, *r.choice(PLAIN)])
            elif x < 0.82 and bound:
                out.append(["alias", name, r.choice(bound)])
            elif x < 0.87 and bound:
                d = r.choice(bound)
                out.append(["del", d])
                bound = [b for b in bound if b != d]
                continue
            elif depth < 2:
                out.append(["fac", f"make{self.uid()}", r.choice([None, r.choice(NAMES)]), self.items(r.choice([2, 3, 4]), True, depth + 1)])
                continue
            else:
                continue
            bound.append(name)
        if fac:
            out.append(self.tmpl(r.choice(NAMES), bound))
        return out

    def script(self):
        r = self.r
        out = []
        for _ in range(r.choice([1, 2, 3, 4])):
            x = r.random()
            if x < 0.68:
                out.append(["pick", r.randrange(1 << 16)])
            elif x < 0.76:
                out.append(["repl", r.choice(["bind", "bind", "alias", "del", "fail"]), r.choice(NAMES), r.choice(NAMES), r.choice(PLAIN)])
            elif x < 0.82:
                out.append(["err"])
            else:
                out.append(["final"])
        return out

    def mutation(self):
        r = self.r
        x = r.random()
        n = r.choice(NAMES)
        if x < 0.35:
            return ["set", n, r.choice(NAMES)]
        if x < 0.55:
            return ["plain", n, *r.choice(PLAIN)]
        if x < 0.75:
            return ["del", n]
        return ["tool", n, self.uid()]


class Scope(Scenario):
    name = "scope"
    groups = ("llm",)

    def setup(self):
        llm_world.setup()

    def generate(self, rng, prop, tier):
        g = Gen(rng)
        nt = rng.choice([1, 1, 1, 2, 3])
        mods = [g.items(rng.choice([3, 5, 7, 9]), False) for _ in range(1 if nt > 1 else rng.choice([1, 2]))]
        threads = []
        for t in range(nt):
            own = nt > 1 and rng.random() < 0.6
            if own:
                mods.append(g.items(rng.choice([3, 5, 7]), False))
            mod = len(mods) - 1 if own else 0
            mutable = own or nt == 1
            steps = []
            for _ in range(rng.choice([2, 3, 4, 6])):
                x = rng.random()
                if x < 0.55:
                    muts = []
                    if mutable:
                        muts = [g.mutation() for _ in range(rng.choice([0, 0, 1, 2]))]
                    steps.append(["call", rng.randrange(1 << 16), g.script(), muts, rng.randrange(1 << 16) if rng.random() < 0.1 else None])
                elif x < 0.68:
                    steps.append(["fac", rng.randrange(1 << 16)])
                elif x < 0.78:
                    steps.append(["tools", rng.randrange(1 << 16)])
                elif mutable:
                    steps.append(["mut", g.mutation()])
            threads.append({"id": t, "mod": mod if nt > 1 else rng.randrange(len(mods)), "steps": steps,
                            "readers": rng.random() < 0.35, "retry": rng.random() < 0.3, "repl": rng.random() < 0.25,
                            "provider": rng.random() < 0.5})
        return {"mods": mods, "threads": threads, "policy": core.gen_policy(rng, 12000), "opcodes": False}

    def nontrivial(self, res):
        return bool(res.get("probes", {}).get("nontrivial"))

    def execute(self, plan, sim):
        w = World(plan, sim)
        llm_world._world = w
        w.run()


class Obj:
    """A value of the generated program, and what it offers."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Missing:
    pass


class World:
    def __init__(self, plan, sim):
        self.plan, self.sim = plan, sim
        self.local = threading.local()
        self.nfile = 0
        self.mods = []

    # -- the program

    def load(self, i, items):
        name = f"simscope{i}"
        m = types.ModuleType(name)
        sys.modules[name] = m
        m.__dict__["RUN"] = self.run_tool
        m.__dict__["KEEP"] = lambda x: self.local.kept.append(x)
        M = types.SimpleNamespace(name=name, ns=m.__dict__, names={}, classes={}, i=i, serial=0)
        self.define(M, HEADER.format(name=name) + "".join(self.source(it, "") for it in items))
        for it in items:
            self.stmt(it, M.names, M.classes, [M.names], M)
        return M

    def define(self, M, src):
        self.nfile += 1
        fn = f"<simscope-{M.i}-{self.nfile}>"
        linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
        exec(compile(src, fn, "exec"), M.ns)

    def source(self, it, ind):
        k, name = it[0], it[1]
        if k == "tool":
            return (f"{ind}@Tool.define\n{ind}def {name}(k: int) -> str:\n{ind}    \"\"\"<u{it[2]}> tool\"\"\"\n"
                    f"{ind}    return RUN({it[2]}, None, k)\n")
        if k == "tmpl":
            ret = "Annotated[str, IsRecursive]" if it[3] else "str"
            ps = ", ".join(f"{p}: str" for p in it[4])
            return (f"{ind}@Template.define\n{ind}def {name}({ps}) -> {ret}:\n{ind}    \"\"\"<u{it[2]}> prompt {{q}}\"\"\"\n"
                    f"{ind}    raise NotHandled\n")
        if k == "class":
            base = it[2] or ("Agent" if it[3] else "object")
            if it[2] and it[3]:
                base = it[2]
            s = f"{ind}class {name}({base}):\n{ind}    \"\"\"<class {name}>\"\"\"\n"
            for m, kind, u, rec in it[4]:
                i2 = ind + "    "
                if kind == "tool":
                    s += f"{i2}@Tool.define\n{i2}def {m}(self, k: int) -> str:\n{i2}    \"\"\"<u{u}> tool\"\"\"\n{i2}    return RUN({u}, self, k)\n"
                elif kind == "static":
                    s += f"{i2}@Tool.define\n{i2}@staticmethod\n{i2}def {m}(k: int) -> str:\n{i2}    \"\"\"<u{u}> tool\"\"\"\n{i2}    return RUN({u}, None, k)\n"
                elif kind == "tmpl":
                    ret = "Annotated[str, IsRecursive]" if rec else "str"
                    s += f"{i2}@Template.define\n{i2}def {m}(self, q: str) -> {ret}:\n{i2}    \"\"\"<u{u}> prompt {{q}}\"\"\"\n{i2}    raise NotHandled\n"
                elif kind == "plain":
                    s += f"{i2}def {m}(self, k: int) -> str:\n{i2}    return 'plain'\n"
                else:
                    s += f"{i2}{m} = None\n"
            return s
        if k == "inst":
            return f"{ind}{name} = {it[2]}()\n"
        if k == "plain":
            return f"{ind}{name} = {it[3]!r}\n"
        if k == "alias":
            return f"{ind}{name} = {it[2]}\n"
        if k == "del":
            return f"{ind}del {name}\n"
        if k == "fac":
            i2 = ind + "    "
            s = f"{ind}def {name}({it[2] or ''}):\n"
            for x in it[3]:
                s += self.source(x, i2)
                if x[0] in ("tmpl", "inst"):
                    s += f"{i2}KEEP({x[1]})\n"
                elif x[0] == "fac":
                    s += f"{i2}{x[1]}({repr('argument') if x[2] else ''})\n"
            return s + f"{i2}return None\n"
        raise core.HarnessError(k)

    # -- its meaning

    def stmt(self, it, names, classes, scope, M):
        """scope: layers around, innermost first; each a live dict or (snapshots, first)."""
        k, name = it[0], it[1]
        if k == "tool":
            names[name] = Obj("tool", ident=("u", it[2]))
        elif k == "tmpl":
            M.serial += 1
            names[name] = Obj("tmpl", ident=("t", it[2], M.serial), u=it[2], rec=bool(it[3]), params=it[4], scope=scope, selfobj=None)
        elif k == "class":
            base = classes[it[2]] if it[2] else None
            c = classes[name] = Obj("class", mro=[it, *(base.mro if base else [])], agent=base.agent if base else bool(it[3]))
            c.scopes = {it[1]: scope, **(base.scopes if base else {})}
        elif k == "inst":
            c = classes[it[2]]
            M.serial += 1
            names[name] = Obj("agent" if c.agent else "object", cls=c, no=(M.i, M.serial))
        elif k == "plain":
            names[name] = Obj("plain", value=it[3])
        elif k == "alias":
            names[name] = names[it[2]]
        elif k == "del":
            names.pop(name, None)
        elif k == "fac":
            names[name] = Obj("fac", spec=it)

    def body_of(self, spec, scope, M, out):
        """Run a function of the program: appends (Obj) to out in the order of KEEP calls."""
        names: dict = {}
        if spec[2]:
            names[spec[2]] = Obj("plain", value="argument")
        snaps = [dict(names)]
        classes: dict = {}
        for it in spec[3]:
            here = [(snaps, len(snaps) - 1), *scope]
            self.stmt(it, names, classes, here, M)
            snaps.append(dict(names))
            if it[0] in ("tmpl", "inst"):
                out.append(names[it[1]])
            elif it[0] == "fac":
                self.body_of(it, [(snaps, len(snaps) - 1), *scope], M, out)

    def worlds(self, t):
        """The possible layers of a template's scope (a function's names may or may not
        include those it binds after defining the template)."""
        out: list = [[]]
        for lay in t.scope:
            if isinstance(lay, tuple):
                snaps, first = lay
                out = [w + [d] for w in out for d in snaps[first:]]
            else:
                out = [w + [lay] for w in out]
        if t.selfobj is not None:
            out = [[{"self": t.selfobj}, *w] for w in out]
        return out

    def methods(self, agent):
        """attribute -> (kind, ident, Obj of a template) of the tools of an agent"""
        out: dict = {}
        for it in agent.cls.mro:
            for m, kind, u, rec in it[4]:
                if m in out:
                    continue
                out[m] = (kind, u, rec, it)
        r = {}
        for m, (kind, u, rec, it) in out.items():
            if kind == "tool":
                r[m] = ("tool", ("m", u, agent.no), None)
            elif kind == "static":
                r[m] = ("tool", ("u", u), None)
            elif kind == "tmpl":
                t = Obj("tmpl", ident=("m", u, agent.no), u=u, rec=bool(rec), params=["q"], scope=agent.cls.scopes[it[1]], selfobj=agent)
                r[m] = ("tmpl", t.ident, t)
        return r

    def offered(self, seen, self_t):
        """ident -> [names it may have, kind, Obj]; readers: name -> value"""
        off: dict = {}
        readers: dict = {}
        for n, o in seen.items():
            if o is None:
                continue
            if o.kind in ("tool", "tmpl"):
                off.setdefault(o.ident, [set(), o.kind, o])[0].add(n)
            elif o.kind == "agent":
                for m, (kind, ident, t) in self.methods(o).items():
                    off.setdefault(ident, [set(), kind, t])[0].add(f"{n}__{m}")
            elif o.kind == "plain":
                readers[n] = o.value
        if not self_t.rec:
            off.pop(self_t.ident, None)
        return off, readers

    # -- what the program calls back

    def st(self):
        return self.local.state

    def run_tool(self, u, inst, k):
        s = self.st()
        fr = s.stack[-1]
        self.sim.point("tool")
        exp = fr.picked
        got = ("m", u) if inst is not None else ("u", u)
        if exp is None or exp[0][:2] != got:
            raise core.Violation("wrong-tool", f"asked for {exp and exp[0]}, ran tool {got}")
        if inst is not None:
            want = exp[1]
            if self.key_of(inst) != want:
                raise core.Violation("wrong-agent", f"tool {u} ran on {self.key_of(inst)} instead of {want}")
        if k != fr.k:
            raise core.Violation("wrong-argument", f"{k!r} instead of {fr.k}")
        fr.picked = None
        fr.ran += 1
        s.runs += 1
        if s.muts and len(s.stack) == 1:
            m = s.muts.pop(0)
            if not self.hides(fr, m):
                self.mutate(s, m)
                self.sim.probe("mutated_in_tool")
        if s.fail is not None and s.fail % 4 == fr.ran:
            s.fail = None
            self.sim.fired["tool:RuntimeError"] += 1
            raise RuntimeError("«tool failed»")
        return f"ran {u}"

    def hides(self, fr, m):
        # the names a running template is hidden under stay hidden for the call, and a
        # session keeps the names it started with
        return fr.repl or any(m[1] in w.hidden for w in fr.worlds)

    def key_of(self, inst):
        return self.insts.get(id(inst))

    def mutate(self, s, m):
        M = s.M
        if m[0] == "set":
            if m[2] not in M.names:
                return
            M.ns[m[1]] = M.ns[m[2]]
            M.names[m[1]] = M.names[m[2]]
        elif m[0] == "plain":
            M.ns[m[1]] = json.loads(json.dumps(m[3]))
            M.names[m[1]] = Obj("plain", value=m[3])
        elif m[0] == "del":
            if m[1] in M.names:
                del M.ns[m[1]]
                del M.names[m[1]]
        elif m[0] == "tool":
            self.define(M, self.source(m, ""))
            self.stmt(m, M.names, M.classes, [M.names], M)

    # -- the model

    def push(self, s, t, args):
        ps = {p: Obj("plain", value=a) for p, a in zip(t.params, args)}
        fr = types.SimpleNamespace(t=t, worlds=[], picked=None, ran=0, k=0, repl=False, req=0, expect=None, args=args, will=None)
        for w in self.worlds(t):
            layers = [ps, *w]
            hidden = set()
            if not t.rec:
                hidden = {n for n, o in flat(layers).items() if o is not None and o.kind == "tmpl" and o.ident == t.ident}
            fr.worlds.append(types.SimpleNamespace(layers=layers, hidden=hidden, scope=None, gone=set()))
        s.stack.append(fr)
        return fr

    def model(self, *args, **kw):
        s = self.st()
        if not s.stack:
            raise core.Violation("stray-request", "the model was asked outside any call")
        self.sim.point("model.request")
        fr = s.stack[-1]
        if fr.picked is not None and fr.picked[2] == "tmpl":
            # the template picked last is running now
            t, a = fr.picked[3], fr.picked[4]
            fr.picked = None
            fr = self.push(s, t, a)
        elif fr.picked is not None:
            raise core.Violation("not-run", f"tool {fr.picked[0]} was called by the model and did not run")
        fr.req += 1
        s.reqs += 1
        if s.reqs > 200:
            raise core.Violation("endless-call", "more than 200 requests")
        t = fr.t
        msgs = [llm_world.norm_msg(m) for m in kw["messages"]]
        prompt = f"<u{t.u}> prompt {fr.args[0]}"
        if fr.req == 1 and (msgs[-1]["role"] != "user" or msgs[-1]["text"] != prompt):
            raise core.Violation("wrong-template", f"the request ends with {llm_world.show_msg(msgs[-1])} instead of {prompt!r}")
        if fr.expect is not None:
            how, val = fr.expect
            fr.expect = None
            last = msgs[-1]
            if last["role"] != "tool":
                raise core.Violation("no-answer", f"the request ends with {llm_world.show_msg(last)} instead of the tool's answer")
            ok = last["text"] == val if how == "text" else _same(last["text"], val) if how == "json" else val in last["text"]
            if not ok:
                raise core.Violation("answer", f"a tool answered {last['text']!r} instead of {val!r}")
        offer = self.check_offer(s, fr, kw.get("tools") or [])
        self.sim.event("req", s.id, t.u, sorted(x for x in offer))
        # reply
        act = ["final"]
        if s.script and len(s.stack) <= 3:
            act = s.script.pop(0)
        if act[0] == "err":
            self.sim.fired["model:ConnectionError"] += 1
            if s.retry and len(s.stack) > 1:
                s.stack.pop()
                s.stack[-1].expect = ("has", "«network»")
            raise ConnectionError("«network»")
        if act[0] == "repl":
            if s.repl and "exec_code" in offer:
                return self.snippet(s, fr, act)
            act = ["final"]
        if act[0] == "pick" and fr.cands:
            ident, kind, t2, name = fr.cands[act[1] % len(fr.cands)]
            s.n += 1
            fr.k = s.n
            if kind == "reader":
                fr.expect = ("text", t2) if isinstance(t2, str) else ("json", t2)
                self.sim.probe("reader")
                return self.reply(None, [(f"c{s.n}", name, {})])
            if kind == "tool":
                fr.picked = (ident, ident[2] if ident[0] == "m" else None, "tool")
                fails = s.fail is not None and s.fail % 4 == fr.ran + 1
                fr.expect = ("has", "«tool failed»") if fails else ("text", f"ran {ident[1]}")
                self.sim.probe("tool")
                return self.reply(None, [(f"c{s.n}", name, {"k": s.n})])
            a = [f"n{s.n}"] + ["shadow"] * (len(t2.params) - 1)
            fr.picked = (ident, None, "tmpl", t2, a)
            self.sim.probe("template")
            fr.expect = ("text", None)
            return self.reply(None, [(f"c{s.n}", name, dict(zip(t2.params, a)))])
        s.n += 1
        text = f"done {s.n}"
        s.stack.pop()
        if s.stack:
            s.stack[-1].expect = ("text", text)
        s.final = text
        return self.reply(json.dumps({"value": text}) if t.rec else text, [])

    def reply(self, content, tcs):
        import litellm

        msg = {"role": "assistant", "content": content}
        if tcs:
            msg["tool_calls"] = [{"id": i, "type": "function", "function": {"name": n, "arguments": json.dumps(a)}} for i, n, a in tcs]
        return litellm.ModelResponse(id="r", choices=[{"index": 0, "message": msg, "finish_reason": "stop"}], model="m")

    def names_now(self, w):
        d = flat(w.layers)
        if w.scope is not None:
            d.update(w.scope)
        for n in w.hidden:
            if w.scope is None or n not in w.scope:
                d[n] = None
        return d

    def check_offer(self, s, fr, specs):
        t = fr.t
        if s.repl and not fr.repl:
            # the session starts from the names visible now
            fr.repl = True
            for w in fr.worlds:
                w.scope = self.names_now(w)
        views = [(n, *self.offered(n, t)) for n in map(self.names_now, fr.worlds)]
        by_name: dict = {}
        for sp in specs:
            f = sp["function"]
            if f["name"] in by_name:
                raise core.Violation("offered-twice", f"two tools are offered as {f['name']!r}")
            by_name[f["name"]] = f
        self.sim.event("offer", s.id, sorted(by_name))
        fr.cands = []
        left = dict(by_name)
        who = f"template u{t.u}{'' if t.selfobj is None else ' of ' + str(t.selfobj.no)}"
        if s.repl and left.pop("exec_code", None) is None:
            raise core.Violation("not-offered", f"{who}: exec_code is not offered; offered: {sorted(by_name)}")
        every: dict = {}
        for _, off, _ in views:
            for ident, (names, kind, o) in off.items():
                every.setdefault(ident, [set(), kind, o])[0].update(names)
        for ident, (names, kind, o) in sorted(every.items(), key=lambda kv: repr(kv[0])):
            must = all(ident in off for _, off, _ in views)
            hit = [n for n in sorted(names) if n in left and f"<u{ident[1]}>" in left[n]["description"]]
            if len(hit) > 1 and not (ident[0] == "m" and sum(f"<u{ident[1]}>" in x["description"] for x in by_name.values()) > 1 and len(views) > 1):
                raise core.Violation("offered-twice", f"{who}: {ident} is offered as {hit}; offered: {sorted(by_name)}")
            if not hit and must:
                raise core.Violation("not-offered", f"{who}: {ident} (visible as {sorted(names)}) is not offered; offered: {sorted(by_name)}")
            for n in hit:
                del left[n]
            if hit and must and len(views) == 1:
                fr.cands.append((ident, kind, o, hit[0]))
            elif hit and must and all(hit[0] in off[ident][0] for _, off, _ in views):
                fr.cands.append((ident, kind, o, hit[0]))
        if s.readers:
            seen = set().union(*(r for _, _, r in views))
            for n in sorted(seen):
                vals = [r[n] if n in r else Missing for _, _, r in views]
                must = all(v is not Missing and v == vals[0] for v in vals)
                f = left.pop(n, None)
                if f is None and must:
                    raise core.Violation("not-offered", f"{who}: variable {n!r} = {vals[0]!r} is not offered; offered: {sorted(by_name)}")
                if must:
                    fr.cands.append((("r", n), "reader", vals[0], n))
            for n in list(left):
                # values that are neither plain nor tools nor agents: unspecified
                if "<u" not in left[n]["description"] and any(
                        n not in known or (known[n] is not None and known[n].kind in ("object", "fac", "class")) for known, _, _ in views):
                    del left[n]
        if left:
            raise core.Violation("offered-extra", f"{who}: {sorted(left)} are offered; in scope: {sorted(x for v in every.values() for x in v[0])}")
        return by_name

    def snippet(self, s, fr, act):
        _, how, a, b, val = act
        if how == "alias" and any(b in w.scope and w.scope[b] is None for w in fr.worlds):
            how = "bind"
        src = {"bind": f"{a} = {val[1]!r}", "alias": f"{a} = {b}", "del": f"del {a}"}.get(how, f"{a} = {val[1]!r}\nraise ValueError('snippet')")
        for w in fr.worlds:
            sc = w.scope
            if how == "alias":
                if b in sc and b not in w.gone:
                    sc[a] = sc[b]
                    w.gone.discard(a)
            elif how == "del":
                if a in sc and a not in w.gone:
                    # the name is then read from the scopes around the session
                    del sc[a]
                    w.gone.add(a)
                    known = flat(w.layers)
                    if a in w.hidden:
                        sc[a] = None
                    elif a in known:
                        sc[a] = known[a]
            else:
                sc[a] = Obj("plain", value=val[1])
                w.gone.discard(a)
        self.sim.probe("snippet")
        s.n += 1
        return self.reply(None, [(f"c{s.n}", "exec_code", {"code": src})])

    # -- driving

    def register(self, o, real):
        """Remember which real object a modelled instance is."""
        self.insts[id(real)] = o.no
        self.keep.append(real)

    def sync(self, M):
        for n, o in M.names.items():
            if o is not None and o.kind in ("agent", "object"):
                self.register(o, M.ns[n])

    def run(self):
        plan, sim = self.plan, self.sim
        self.insts: dict = {}
        self.keep: list = []
        self.mods = [self.load(i, items) for i, items in enumerate(plan["mods"])]
        for M in self.mods:
            self.sync(M)
        s = core.Scheduler(sim, plan["policy"], opcodes=plan["opcodes"], trace=len(plan["threads"]) > 1)
        sim.last_sched = s
        for t in plan["threads"]:
            s.spawn(f"T{t['id']}", lambda t=t: self.body(t), tid=t["id"])
        for name, (kind, e) in s.run().items():
            if kind == "err":
                raise e
        if sim.probes.get("req"):
            sim.probe("nontrivial")

    def targets(self, s):
        """(Obj, real template) of everything that can be called now."""
        out = []
        for n, o in sorted(s.M.names.items()):
            if o is None:
                continue
            if o.kind == "tmpl":
                out.append((o, s.M.ns[n]))
            elif o.kind in ("agent", "object"):
                for m, (kind, ident, t) in sorted(self.methods(o).items()):
                    if kind == "tmpl":
                        out.append((t, (s.M.ns[n], m)))
        return out + s.made

    def body(self, t):
        from effectful.handlers.llm.completions import LexicalReaders, LiteLLMProvider, PythonRepl, RetryLLMHandler
        from effectful.handlers.llm.evaluation import RestrictedEvalProvider, UnsafeEvalProvider, type_check
        from effectful.ops.semantics import handler

        M = self.mods[t["mod"]]
        s = types.SimpleNamespace(id=t["id"], M=M, stack=[], made=[], facs=[], n=100 * t["id"], reqs=0, runs=0, script=[], muts=[],
                                  fail=None, final=None, readers=t["readers"], retry=t["retry"], repl=t["repl"])
        self.local.state = s
        for n, o in sorted(M.names.items()):
            if o is not None and o.kind == "fac":
                s.facs.append((o, M.ns[n]))
        with contextlib.ExitStack() as stack:
            en = stack.enter_context
            en(handler(LiteLLMProvider(model="sim")))
            if t["retry"]:
                en(handler(RetryLLMHandler()))
            if t["readers"]:
                en(handler(LexicalReaders()))
            if t["repl"]:
                en(handler(UnsafeEvalProvider() if t["provider"] else RestrictedEvalProvider()))
                en(handler({type_check: lambda *a, **k: None}))
                en(handler(PythonRepl()))
            for st in t["steps"]:
                self.step(s, st)

    def step(self, s, st):
        from effectful.handlers.llm.completions import ToolCallExecutionError

        if st[0] == "mut":
            self.mutate(s, st[1])
            self.sync(s.M)
        elif st[0] == "fac":
            if not s.facs:
                return
            o, fn = s.facs[st[1] % len(s.facs)]
            self.factory(s, o, fn)
        elif st[0] == "tools":
            ts = self.targets(s)
            if not ts:
                return
            t, real = ts[st[1] % len(ts)]
            if isinstance(real, tuple):
                real = getattr(*real)
            self.sim.probe("tools_property")
            views = [self.offered(flat(w), t)[0] for w in self.worlds(t)]
            got = {n: x.__doc__ or "" for n, x in real.tools.items()}
            n = sum("<u" in d for d in got.values())
            if not min(map(len, views)) <= n <= max(map(len, views)):
                raise core.Violation("tools-property", f"template u{t.u}.tools lists {sorted(got)}; in scope: {[sorted(v) for v in views]}")
            for ident, (names, kind, o) in views[0].items():
                if all(ident in v for v in views) and not any(
                        f"<u{ident[1]}>" in got.get(x, "") for v in views for x in v[ident][0]):
                    raise core.Violation("tools-property", f"template u{t.u}.tools lacks {ident} (visible as {sorted(names)}); lists {sorted(got)}")
        else:
            ts = self.targets(s)
            if not ts:
                return
            t, real = ts[st[1] % len(ts)]
            if isinstance(real, tuple):
                real = getattr(*real)
            s.script, s.muts, s.fail = [*st[2]], [*st[3]], st[4]
            s.reqs = 0
            s.final = None
            s.n += 1
            args = [f"q{s.n}"] + ["shadow"] * (len(t.params) - 1)
            self.push(s, t, args)
            self.sim.probe("call")
            try:
                v = real(*args)
            except core.Violation:
                raise
            except ConnectionError as e:
                if "«network»" not in str(e):
                    raise core.Violation("call-failed", f"template u{t.u}: {e!r}") from e
            except ToolCallExecutionError as e:
                if "«" not in str(e.original_error):
                    raise core.Violation("call-failed", f"template u{t.u}: {e!r}") from e
            except Exception as e:  # noqa: BLE001
                raise core.Violation("call-failed", f"template u{t.u}: {type(e).__name__}: {e}") from e
            else:
                if v != s.final or s.stack:
                    raise core.Violation("result", f"template u{t.u} returned {v!r} instead of {s.final!r}")
            s.stack.clear()
            s.muts, s.fail = [], None
            self.sync(s.M)
            self.sim.probe("req")

    def factory(self, s, o, fn):
        self.local.kept = []
        fn(*(["argument"] if o.spec[2] else []))
        made: list = []
        self.body_of(o.spec, [s.M.names], s.M, made)
        kept = self.local.kept
        if len(made) != len(kept):
            raise core.HarnessError("program and model disagree")
        for ob, real in zip(made, kept):
            if ob.kind == "tmpl":
                s.made.append((ob, real))
            else:
                self.register(ob, real)
                for m, (kind, _, t) in sorted(self.methods(ob).items()):
                    if kind == "tmpl":
                        s.made.append((t, (real, m)))
        self.sim.probe("factory")


def flat(layers):
    d: dict = {}
    for lay in reversed(layers):
        d.update(lay)
    return d


def _same(text, value):
    try:
        return json.loads(text) == value
    except ValueError:
        return False
