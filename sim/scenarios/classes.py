"""C06: classes of handlers implement exactly what they declare and inherit.

Threads define random ObjectInterpretation hierarchies (some definitions fail midway,
some nest another definition inside their body, some are deleted) and use them; the
implementations of every class must be those of its own body over those of its bases
in method resolution order, and instances dispatch to their own state."""

from __future__ import annotations

from .. import core
from ..base import Scenario


class Stop(Exception):
    pass


class Classes(Scenario):
    name = "classes"

    def setup(self):
        import effectful.internals.runtime
        import effectful.internals.unification
        import effectful.ops.semantics
        import effectful.ops.syntax  # noqa: F401

    def generate(self, rng, prop, tier):
        nops = rng.choice([2, 3, 4])
        nb = rng.choice([0, 1, 2])
        cid = [0]

        def cls(pool, depth=0):
            cid[0] += 1
            d = {"id": cid[0], "bases": rng.sample(pool, min(len(pool), rng.choice([0, 1, 1, 2]))),
                 "decls": [{"op": o, "m": rng.choice(["f", "g", None])} for o in rng.sample(range(nops), rng.choice([0, 1, 1, 2]))]}
            r = rng.random()
            if r < 0.18:
                d["fail"] = rng.choice(["body", "setname", "initsub", "mro", "meta"])
            elif r < 0.32 and depth < 2:
                d["nest"] = cls([], depth + 1)
                d["nest_at"] = rng.randrange(len(d["decls"]) + 1)
                d["nest_hook"] = rng.random() < 0.4
            if rng.random() < 0.15:
                d["plain_base"] = True
            return d

        base_pool: list = []
        shared = []
        for _ in range(nb):
            c = cls(list(base_pool))
            c.pop("fail", None)
            shared.append(c)
            base_pool.append(c["id"])
        threads = []
        for t in range(rng.choice([1, 2, 2, 3])):
            pool = list(base_pool)
            ops = []
            for _ in range(rng.choice([1, 2, 3])):
                c = cls(list(pool))
                ops.append({"a": "def", "cls": c})
                if "fail" not in c:
                    pool.append(c["id"])
                if rng.random() < 0.5 and pool:
                    ops.append({"a": "use", "id": rng.choice(pool), "op": rng.randrange(nops)})
            threads.append({"id": t, "ops_list": ops})
        return {"nops": nops, "shared": shared, "threads": threads,
                "policy": core.gen_policy(rng, 300), "opcodes": rng.random() < 0.6, "faults": []}

    def execute(self, plan, sim):
        from effectful.ops.semantics import handler
        from effectful.ops.syntax import ObjectInterpretation, implements
        from effectful.ops.types import Operation

        ops = []
        for i in range(plan["nops"]):
            def d(x, i=i):
                return ("default", i, x)
            d.__name__ = f"op{i}"
            ops.append(Operation.define(d))
        reg: dict = {}  # id -> class
        spec: dict = {}  # id -> (bases ids, {op: tag})
        errs: list = []

        class Failing:
            def __set_name__(self, owner, name):
                raise Stop("setname")

        class Hook:
            """A descriptor that defines another handler class while its owner is being built."""

            def __init__(self, fn):
                self.fn = fn

            def __set_name__(self, owner, name):
                self.fn()

        def make(c, tid):
            bases = [reg[b] for b in c["bases"] if b in reg]
            ok_ids = [b for b in c["bases"] if b in reg]
            if c.get("plain_base"):
                bases = [*bases, type("Plain", (), {"extra": 1})]
            if not any(issubclass(b, ObjectInterpretation) for b in bases):
                bases = [*bases, ObjectInterpretation] if not c.get("plain_base") else [ObjectInterpretation, *bases]
            ns: dict = {"__module__": __name__}
            own = {}
            for n, decl in enumerate(c["decls"]):
                if c.get("nest") and c["nest_at"] == n:
                    self._nest(ns, c, tid, make, Hook)
                tag = f"C{c['id']}.{decl['op']}"

                def impl(self, x, tag=tag):
                    return (tag, self.state, x)

                name = decl["m"] or f"m{decl['op']}"
                if name in ns:
                    name = f"m{decl['op']}"
                ns[name] = implements(ops[decl["op"]])(impl)
                own[decl["op"]] = tag
                sim.point("declare")
            if c.get("nest") and c["nest_at"] >= len(c["decls"]):
                self._nest(ns, c, tid, make, Hook)
            f = c.get("fail")
            if f == "body":
                raise Stop("body")
            if f == "setname":
                ns["zz"] = Failing()
            if f == "initsub":
                bases = [type("BadInit", (), {"__init_subclass__": classmethod(_bad_init)}), *bases]
            if f == "mro":
                bases = [object, *bases]
            kw = {"unexpected": 1} if f == "meta" else {}
            cls = type(f"C{c['id']}", tuple(bases), ns, **kw)
            reg[c["id"]] = cls
            spec[c["id"]] = own
            sim.event(tid, "defined", c["id"])
            return ok_ids

        def want(cls):
            """Declared and inherited, nearest in the method resolution order first."""
            out = {}
            ids = {v: k for k, v in reg.items()}
            for k in cls.__mro__:
                if k in ids:
                    for o, tag in spec[ids[k]].items():
                        out.setdefault(o, tag)
            return out

        def check(cid, op, tid):
            cls = reg[cid]
            a, b = cls(), cls()
            a.state, b.state = f"a{tid}", f"b{tid}"
            w = want(cls)
            got_ops = sorted(ops.index(o) for o in a)
            if got_ops != sorted(w):
                raise core.Violation("wrong-implementations", f"class C{cid} implements operations {got_ops}, it declares and inherits {sorted(w)}")
            if len(a) != len(w):
                raise core.Violation("wrong-implementations", f"class C{cid} has len {len(a)}, declares and inherits {len(w)}")
            for i in range(plan["nops"]):
                for inst in (a, b):
                    with handler(inst):
                        got = ops[i](5)
                    exp = (w[i], inst.state, 5) if i in w else ("default", i, 5)
                    if got != exp:
                        raise core.Violation("wrong-implementations", f"op{i} under an instance of C{cid} gave {got!r}, declared {exp!r}")

        def run(tid, acts):
            for a in acts:
                if a["a"] == "def":
                    try:
                        make(a["cls"], tid)
                    except (Stop, TypeError) as e:
                        sim.fired[f"definition_fails:{a['cls'].get('fail')}"] += 1
                        sim.event(tid, "failed", a["cls"]["id"], type(e).__name__)
                        if not a["cls"].get("fail") and not _bad_bases(reg, a["cls"]):
                            errs.append(core.Violation("definition-error", f"defining C{a['cls']['id']} raised {type(e).__name__}: {e}"))
                        continue
                elif a["id"] in reg:
                    try:
                        check(a["id"], a["op"], tid)
                    except core.Violation as v:
                        errs.append(v)

        for c in plan["shared"]:
            try:
                make(c, "main")
            except TypeError:
                pass
        s = core.Scheduler(sim, plan["policy"], opcodes=plan["opcodes"])
        sim.last_sched = s
        for t in plan["threads"]:
            s.spawn(f"T{t['id']}", lambda t=t: run(t["id"], t["ops_list"]), tid=t["id"])
        for name, o in s.run().items():
            if o[0] == "err":
                raise core.Violation("definition-error", f"{name}: {type(o[1]).__name__}: {o[1]}")
        if errs:
            raise errs[0]
        for cid in sorted(reg):
            check(cid, 0, "end")
        if len(reg) >= 2:
            sim.probe("nontrivial")

    @staticmethod
    def _nest(ns, c, tid, make, Hook):
        if c.get("nest_hook"):
            def fn():
                try:
                    make(c["nest"], tid)
                except (Stop, TypeError):
                    pass
            ns["hook"] = Hook(fn)
        else:
            try:
                make(c["nest"], tid)
            except (Stop, TypeError):
                pass


def _bad_init(cls, **kw):
    raise Stop("initsub")


def _bad_bases(reg, c):
    """No consistent method resolution order exists: Python itself refuses the class."""
    return len(c["bases"]) > 1
