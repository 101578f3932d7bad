"""C04: operations reached through instances and classes keep one identity.

Threads race attribute accesses on shared objects (plain, inheriting, overriding with
super(), dataclasses, copies, agents with prompt templates); every access of one
(object, attribute) must yield the one operation, different objects different ones,
and handlers installed for an operation obtained by one thread must act on calls made
through the attribute by any thread, for that object only."""

from __future__ import annotations

import copy
import dataclasses

from .. import core
from ..base import Scenario


class Objects(Scenario):
    name = "objects"

    def setup(self):
        import effectful.internals.runtime
        import effectful.internals.unification
        import effectful.ops.semantics
        import effectful.ops.syntax  # noqa: F401

    def generate(self, rng, prop, tier):
        ncls = rng.choice([1, 2, 3])
        classes = []
        for i in range(ncls):
            base = rng.choice([None, *range(i)]) if i else None
            attrs = []
            for a in rng.sample(["m", "n", "c", "s", "d", "p"], rng.choice([1, 2, 3])):
                attrs.append({"name": a, "super": rng.random() < 0.5})
            classes.append({"base": base, "dc": rng.random() < 0.3, "attrs": attrs,
                            "eq": rng.choice([None, None, None, "same", "unhashable"])})
        same = rng.random() < 0.3  # all classes have the same name
        nobj = rng.choice([1, 1, 2, 3])
        objs = []
        for i in range(nobj):
            if i and rng.random() < 0.35:
                objs.append({"copy": rng.randrange(i), "how": rng.choice(["copy", "deepcopy", "replace"])})
            else:
                objs.append({"cls": rng.randrange(ncls)})
        all_attrs = self._attrs(classes)
        pre = []
        for _ in range(rng.choice([0, 0, 1, 3])):
            o = rng.randrange(nobj)
            pre.append([o, rng.choice("mncsdp")])
        threads = []
        for t in range(rng.choice([2, 2, 3, 4])):
            ops = []
            for _ in range(rng.choice([1, 2, 4])):
                r = rng.random()
                if r < 0.6:
                    ops.append({"a": "get", "o": rng.randrange(nobj), "n": rng.choice(all_attrs)})
                elif r < 0.75:
                    ops.append({"a": "cls", "c": rng.randrange(ncls), "n": rng.choice(all_attrs)})
                elif r < 0.9:
                    ops.append({"a": "call", "o": rng.randrange(nobj), "n": rng.choice(all_attrs), "x": rng.randrange(9)})
                elif r < 0.95:
                    ops.append({"a": "churn", "c": rng.randrange(ncls), "k": rng.choice([2, 4])})
                else:
                    ops.append({"a": "handled", "o": rng.randrange(nobj), "n": rng.choice(all_attrs), "x": rng.randrange(9)})
            threads.append({"id": t, "ops_list": ops})
        return {"classes": classes, "objs": objs, "pre": pre, "threads": threads, "same_name": same,
                "policy": core.gen_policy(rng, 400), "opcodes": rng.random() < 0.5, "faults": []}

    @staticmethod
    def _attrs(classes):
        return sorted({a["name"] for c in classes for a in c["attrs"]})

    # -- the classes under test
    def build(self, plan):
        import functools

        from effectful.ops.types import Operation

        built = []
        for ci, c in enumerate(plan["classes"]):
            base = built[c["base"]] if c["base"] is not None and c["base"] < len(built) else None
            ns = {"__module__": __name__}
            cell = {}

            def mk(ci, name, sup, cell=cell):
                if name == "c":
                    def f(cls, x):
                        up = getattr(super(cell["cls"], cls), "c", None) if sup else None
                        return (f"K{ci}.c", built.index(cls), x, up(x) if up is not None else None)
                elif name == "s":
                    def f(x):
                        return (f"K{ci}.s", x)
                else:
                    def f(self, x):
                        up = getattr(super(cell["cls"], self), name, None) if sup else None
                        return (f"K{ci}.{name}", self.tag, x, up(x) if up is not None else None)
                f.__name__ = name
                f.__qualname__ = f"K{ci}.{name}"
                return f

            if c.get("eq") == "same":  # all instances are equal
                ns["__eq__"] = lambda self, other: type(self) is type(other)
                ns["__hash__"] = lambda self: 7
            elif c.get("eq") == "unhashable":
                ns["__eq__"] = lambda self, other: type(self) is type(other)
                ns["__hash__"] = None

            for a in c["attrs"]:
                f = mk(ci, a["name"], a["super"])
                if a["name"] == "c":
                    ns["c"] = Operation.define(classmethod(f))
                elif a["name"] == "s":
                    ns["s"] = Operation.define(staticmethod(f))
                elif a["name"] == "d":
                    ns["d"] = Operation.define(functools.singledispatchmethod(f))
                elif a["name"] == "p":  # a plain method next to the operations
                    ns["p"] = f
                else:
                    ns[a["name"]] = Operation.define(f)
            if c["dc"] or (base is not None and dataclasses.is_dataclass(base)):
                ns.setdefault("__annotations__", {})["tag"] = int
                cls = type("K" if plan.get("same_name") else f"K{ci}", (base,) if base else (), ns)
                cls = dataclasses.dataclass(eq=False)(cls)
            else:
                def __init__(self, tag):
                    self.tag = tag
                ns["__init__"] = __init__
                cls = type("K" if plan.get("same_name") else f"K{ci}", (base,) if base else (), ns)
            cell["cls"] = cls
            built.append(cls)
        return built

    # -- reference: what a call gives by ordinary method semantics
    def ref_call(self, plan, ci, name, tag, x, start=None):
        """Resolve `name` from class `start` upward; `ci` is the receiver's class."""
        k = ci if start is None else start
        while k is not None:
            c = plan["classes"][k]
            for a in c["attrs"]:
                if a["name"] == name:
                    if name == "s":
                        return (f"K{k}.s", x)
                    up = None
                    if a["super"]:
                        b = c["base"]
                        if b is not None and b < k:
                            up = self.ref_call(plan, ci, name, tag, x, b)
                    who = ci if name == "c" else tag
                    return (f"K{k}.{name}", who, x, up)
            b = c["base"]
            k = b if b is not None and b < k else None
        return None

    def execute(self, plan, sim):
        from effectful.ops.semantics import handler
        from effectful.ops.types import Operation

        classes = self.build(plan)
        objs, ocls = [], []

        def has(k, n):
            return hasattr(classes[k], n)

        for i, o in enumerate(plan["objs"]):
            if "copy" in o and o["copy"] < len(objs):
                src = objs[o["copy"]]
                k = ocls[o["copy"]]
                for n in self._attrs(plan["classes"]):  # the original's operations were already used
                    if has(k, n):
                        getattr(src, n)
                if o["how"] == "replace" and dataclasses.is_dataclass(src):
                    new = dataclasses.replace(src)
                elif o["how"] == "deepcopy":
                    new = copy.deepcopy(src)
                else:
                    new = copy.copy(src)
                new.tag = 100 + i
                sim.probe("copied_object")
            else:
                k = o.get("cls", 0)
                k = k if k < len(classes) else 0
                new = classes[k](100 + i)
            objs.append(new)
            ocls.append(k)
        seen: dict = {}
        errs = []

        def note(key, op):
            seen.setdefault(key, []).append(op)

        def get(o, n):
            op = getattr(objs[o], n)
            key = ("cls", ocls[o], n) if n == "c" else (("static", self._owner(plan, ocls[o], n)) if n == "s" else ("obj", o, n))
            note(key, op)
            return op

        for o, n in plan["pre"]:
            if o < len(objs) and has(ocls[o], n):
                get(o, n)

        def run(tid, ops):
            for a in ops:
                n = a["n"]
                try:
                    if a["a"] == "cls":
                        if a["c"] < len(classes) and has(a["c"], n) and n in "cs":
                            op = getattr(classes[a["c"]], n)
                            note(("cls", a["c"], n) if n == "c" else ("static", self._owner(plan, a["c"], n)), op)
                            sim.event(tid, "cls", a["c"], n)
                        continue
                    if a["a"] == "churn":  # objects that come and go
                        k = a["c"] if a["c"] < len(classes) else 0
                        for j in range(a["k"]):
                            tag = 1000 + 100 * tid + j
                            new = classes[k](tag)
                            for m in self._attrs(plan["classes"]):
                                if has(k, m) and m in "mnd":
                                    got, want = getattr(new, m)(j), self.ref_call(plan, k, m, tag, j)
                                    if got != want:
                                        errs.append(f"thread {tid}: {m}({j}) of a new object of class {k} gave {got!r}, its class defines {want!r}")
                            del new
                        sim.event(tid, "churn", k)
                        continue
                    o = a["o"]
                    if o >= len(objs) or not has(ocls[o], n):
                        continue
                    op = get(o, n)
                    want = self.ref_call(plan, ocls[o], n, objs[o].tag, a.get("x", 0))
                    if a["a"] == "call":
                        got = op(a["x"])
                        sim.event(tid, "call", o, n, got)
                        if got != want:
                            errs.append(f"thread {tid}: object {o}.{n}({a['x']}) gave {got!r}, its class defines {want!r}")
                    elif a["a"] == "handled" and isinstance(op, Operation):
                        with handler({op: lambda *ar, **kw: ("handled", tid, ar)}):
                            got = getattr(objs[o], n)(a["x"])
                            note_other = [
                                (j, getattr(objs[j], n)(a["x"])) for j in range(len(objs))
                                if j != o and has(ocls[j], n) and n != "s" and not (n == "c" and ocls[j] == ocls[o])
                            ]
                        sim.event(tid, "handled", o, n, got)
                        if got != ("handled", tid, (a["x"],)):
                            errs.append(f"thread {tid}: the handler installed for object {o}.{n} did not handle the call made through it (got {got!r})")
                        for j, v in note_other:
                            w = self.ref_call(plan, ocls[j], n, objs[j].tag, a["x"])
                            if v != w:
                                errs.append(f"thread {tid}: the handler of object {o}.{n} changed object {j}.{n}: {v!r} instead of {w!r}")
                except Exception as e:  # noqa: BLE001
                    errs.append(f"thread {tid}: {a} raised {type(e).__name__}: {e}")

        s = core.Scheduler(sim, plan["policy"], opcodes=plan["opcodes"])
        sim.last_sched = s
        for t in plan["threads"]:
            s.spawn(f"T{t['id']}", lambda t=t: run(t["id"], t["ops_list"]), tid=t["id"])
        s.run()
        # afterwards, alone
        for o in range(len(objs)):
            for n in self._attrs(plan["classes"]):
                if has(ocls[o], n):
                    op = get(o, n)
                    got = op(3)
                    want = self.ref_call(plan, ocls[o], n, objs[o].tag, 3)
                    if got != want:
                        errs.append(f"afterwards object {o}.{n}(3) gave {got!r}, its class defines {want!r}")
        for (kind, *rest), ops in sorted(seen.items(), key=lambda kv: repr(kv[0])):
            ops = [p for p in ops if isinstance(p, Operation)]
            if any(p is not ops[0] for p in ops):
                raise core.Violation("split-identity", f"accesses of {kind} {rest} gave {len({id(p) for p in ops})} different operations")
        owner: dict = {}
        for key, ops in seen.items():
            for p in ops:
                if isinstance(p, Operation):
                    k2 = owner.setdefault(id(p), key)
                    if k2 != key:
                        raise core.Violation("shared-identity", f"{k2} and {key} gave the same operation")
        # a handler for an operation obtained by a thread acts on that object only
        for key, ops in list(seen.items()):
            if key[0] == "obj" and isinstance(ops[0], Operation):
                _, o, n = key
                with handler({ops[0]: lambda *a: "H"}):
                    if getattr(objs[o], n)(1) != "H":
                        errs.append(f"a handler for object {o}.{n} does not handle calls through the object")
        if errs:
            raise core.Violation("wrong-operation", errs[0])
        if len(plan["threads"]) > 1 and len(seen):
            sim.probe("nontrivial")

    def _owner(self, plan, k, n):
        while k is not None:
            c = plan["classes"][k]
            if any(a["name"] == n for a in c["attrs"]):
                return k
            b = c["base"]
            k = b if b is not None and b < k else None
        return None
