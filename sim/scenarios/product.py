"""C08: several named analyses run together over a computation.

Random analyses (rules for some operations, catch-all rules, operations left to their
default) whose rules call other operations and ask for each other's results and
arguments; a computation of steps, written directly or as a term; failures at any
invocation of any rule; several threads with computations of their own. Every result is
compared with a reference that evaluates each analysis by itself."""

from __future__ import annotations

import collections
import dataclasses
import types

from .. import core
from ..base import Scenario


class Oops(Exception):
    pass


class Abort(BaseException):
    pass


EXC = {"Oops": Oops, "KeyError": KeyError, "AttributeError": AttributeError,
       "RuntimeError": RuntimeError, "Abort": Abort, "KeyboardInterrupt": KeyboardInterrupt}

Pair = collections.namedtuple("Pair", "left right")
M = 10007


@dataclasses.dataclass(frozen=True)
class Data:
    left: object
    right: object = 4


@dataclasses.dataclass(frozen=True)
class Partly:
    v: object
    rest: int = dataclasses.field(init=False, default=11)


# containers an argument may come in, and what a rule gets when it is not the same
MAKE = {
    "list": list, "tuple": tuple, "deque": collections.deque,
    "dict": lambda xs: {str(i): x for i, x in enumerate(xs)},
    "ddict": lambda xs: collections.defaultdict(int, {str(i): x for i, x in enumerate(xs)}),
    "odict": lambda xs: collections.OrderedDict({str(i): x for i, x in enumerate(xs)}),
    "mproxy": lambda xs: types.MappingProxyType({str(i): x for i, x in enumerate(xs)}),
    "values": lambda xs: {str(i): x for i, x in enumerate(xs)}.values(),
    "set": lambda xs: {xs[0]}, "frozen": lambda xs: frozenset(xs[:1]),
    "items": lambda xs: {"p": xs[0]}.items(), "keys": lambda xs: {xs[0]: "p"}.keys(),
    "pair": lambda xs: Pair(*xs[:2]), "data": lambda xs: Data(*xs[:2]), "partly": lambda xs: Partly(xs[0]),
    "str": lambda xs: "two words", "bytes": lambda xs: b"four", "none": lambda xs: None, "range": lambda xs: range(3, 5), "counter": lambda xs: collections.Counter("aab"),
}
SEEN = {"values": lambda xs: list(xs), "items": lambda xs: {("p", xs[0])}, "keys": lambda xs: {xs[0]}}
WEIGHT = {t: 3 + 2 * i for i, t in enumerate((
    list, tuple, collections.deque, dict, collections.defaultdict, collections.OrderedDict, types.MappingProxyType, set, frozenset, Pair, Data, Partly,
    str, bytes, type(None), range, collections.Counter, int))}


def tot(x):
    w = WEIGHT.get(type(x), 1000)
    if isinstance(x, int):
        return x
    if isinstance(x, collections.defaultdict) and x.default_factory is not int:
        return 1001
    if isinstance(x, collections.Counter):
        return w + sum(tot(v) + len(str(k)) for k, v in x.items())
    if isinstance(x, dict | types.MappingProxyType):
        return w + sum((i + 1) * tot(v) + tot(k) for i, (k, v) in enumerate(x.items()))
    if isinstance(x, list | tuple | collections.deque | set | frozenset | range):
        return w + sum((i + 2) * tot(v) for i, v in enumerate(x))
    if isinstance(x, str | bytes):
        return w + len(x)
    if dataclasses.is_dataclass(x):
        return w + sum((i + 2) * tot(getattr(x, f.name)) for i, f in enumerate(dataclasses.fields(x)))
    return w


class Product(Scenario):
    name = "product"

    def setup(self):
        import effectful.internals.product_n
        import effectful.internals.runtime
        import effectful.ops.semantics
        import effectful.ops.syntax  # noqa: F401
        from effectful.ops.types import Operation

        # sets of operations are iterated in an order that follows their addresses;
        # number the hashes so that a seed gives one execution
        real, table = Operation.__hash__, {}
        Operation.__hash__ = lambda self: table.setdefault(real(self), len(table))

    # ---------------------------------------------------------------- plans

    def generate(self, rng, prop, tier):
        r = rng
        nops = r.choice([2, 3, 4, 5])
        nan = r.choice([1, 2, 2, 3, 3, 4])
        arity = [r.choice([0, 1, 1, 2]) for _ in range(nops)]
        arity[0] = r.choice([0, 1])
        term_op = [r.random() < 0.4 for _ in range(nops)]

        def expr(op, a=None, depth=0, apply=False):
            x = r.random()
            if depth > 2 or x < 0.3:
                return ["arg", r.randrange(2)] if r.random() < 0.7 else ["const", r.randrange(1, 50)]
            if x < 0.45:
                return ["add", r.randrange(2, 9), expr(op, a, depth + 1, apply), expr(op, a, depth + 1, apply)]
            if x < 0.68 and op > 0 and not apply:
                t = r.randrange(op)
                return ["call", t, [expr(op, a, depth + 1) for _ in range(arity[t])]]
            if a is None:
                return ["const", r.randrange(1, 50)]
            if x < 0.80 and a > 0:
                return ["other", r.randrange(a)]
            if x < 0.87:
                return ["oargs", r.randrange(nan)]
            return ["name"] if apply else ["const", r.randrange(1, 50)]

        default = [["const", 0] if t else ["add", 3, ["const", r.randrange(60)], expr(i)] for i, t in enumerate(term_op)]
        analyses = []
        for a in range(nan):
            cover = r.choice([0.4, 0.7, 1.0])
            rules = {str(i): ["add", r.randrange(2, 9), ["const", 100 * a + i], expr(i, a)] for i in range(nops) if r.random() < cover}
            d = {"rules": rules, "apply": None}
            if r.random() < 0.3:
                d["apply"] = ["add", r.randrange(2, 9), ["const", 100 * a + 77], expr(nops, a, apply=True)]
            for i, t in enumerate(term_op):
                if t and str(i) not in rules and not d["apply"]:
                    rules[str(i)] = ["add", r.randrange(2, 9), ["const", 100 * a + i], expr(i, a)]
            analyses.append(d)
        used = [i for i in range(nops) if any(str(i) in d["rules"] for d in analyses)]
        if any(d["apply"] for d in analyses) and "oargs" not in str(analyses) and (r.random() < 0.6 or not used):
            used = [*range(nops)]  # some reach the product only by its catch-all
        threads = []
        tags = 0
        for t in range(r.choice([1, 1, 2, 2, 3])):
            stmts: list = []
            vs: list = []
            for _ in range(r.choice([2, 4, 6, 9]) if used else 0):
                x = r.random()
                if vs and x < 0.4:
                    stmts.append({"k": "read", "v": r.choice(vs), "a": r.randrange(nan), "n": r.choice([1, 1, 2])})
                    continue

                def leaf():
                    if vs and r.random() < 0.6:
                        return ["v", r.choice(vs[-4:])]
                    return ["c", r.randrange(1, 40)]

                def arg():
                    x = r.random()
                    if x < 0.75:
                        return leaf()
                    if x > 0.97:
                        return [r.choice(list(MAKE)), [[r.choice(["tuple", "pair", "data", "frozen"]), [leaf(), leaf()]], leaf()]]
                    return [r.choice(list(MAKE)), [leaf(), leaf()]]

                terms = [i for i in used if term_op[i]]
                if terms and x > 0.85:
                    def node(depth=0):
                        nonlocal tags
                        i = r.choice(terms)
                        tags += 1
                        return ["t", i, tags, [node(depth + 1) if depth < 2 and r.random() < 0.6 else ["c", r.randrange(1, 40)] for _ in range(arity[i])]]

                    n = node()
                    vs.append(n[2])
                    stmts.append({"k": "term", "t": n})
                else:
                    i = r.choice(used)
                    tags += 1
                    stmts.append({"k": "step", "op": i, "tag": tags, "args": [arg() for _ in range(arity[i])]})
                    vs.append(tags)
            threads.append({"id": t, "steps": stmts, "leave": r.random() < 0.3,
                            "final": [[r.choice(vs), r.randrange(nan)] for _ in range(r.choice([1, 3, 5]))] if vs else []})
        faults = []
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            a = r.randrange(nan)
            faults.append({"t": r.randrange(len(threads)), "a": a, "k": r.choice([*analyses[a]["rules"], "apply"] if analyses[a]["apply"] else list(analyses[a]["rules"]) or ["apply"]),
                           "n": r.randrange(4), "exc": r.choice(list(EXC)), "late": r.random() < 0.4})
        return {"nops": nops, "arity": arity, "term_op": term_op, "default": default, "analyses": analyses, "threads": threads,
                "oops": faults, "faults": [], "own": r.random() < 0.25, "policy": core.gen_policy(r, 2500), "opcodes": len(threads) > 1 and r.random() < 0.5}

    # ------------------------------------------------------------ execution

    def execute(self, plan, sim):
        from effectful.internals.product_n import argsof, productN
        from effectful.ops.semantics import apply, evaluate, handler
        from effectful.ops.syntax import defop
        from effectful.ops.types import Interpretation, NotHandled

        import threading

        nan = len(plan["analyses"])
        loc = threading.local()

        def run(e, args, name=None):
            """What a rule does, with the library."""
            k = e[0]
            if k == "arg":
                return tot(args[e[1] % len(args)]) if args else 5
            if k == "const":
                return e[1]
            if k == "add":
                return (e[1] * run(e[2], args, name) + run(e[3], args, name)) % M
            if k == "call":
                return ops[e[1]](*[run(x, args, name) for x in e[2]])
            if k == "other":
                return prompts[e[1]]() + 1
            if k == "oargs":
                return tot(list(argsof(prompts[e[1]])[0]))
            if k == "name":
                return len(name)
            raise AssertionError(e)

        def fault(a, key, late):
            st = loc.st
            n = st["count"][(a, key, late)]
            st["count"][(a, key, late)] += 1
            for f in plan["oops"]:
                if (f["t"], f["a"], f["k"], f["late"], f["n"]) == (st["id"], a, key, late, n):
                    exc = EXC[f["exc"]](f"fault {a} {key} {n}")
                    st["raised"].append((a, exc))
                    sim.fired[f["exc"]] += 1
                    raise exc

        ops = []
        for i in range(plan["nops"]):
            def body(args, i=i):
                if plan["term_op"][i]:
                    raise NotHandled
                sim.event(loc.st["id"], "default", i)
                return run(plan["default"][i], args)

            o = signature(plan["arity"][i], body)
            o.__name__ = o.__qualname__ = "op" + "x" * i
            ops.append(defop(o))
        prompts = [defop(Interpretation, name=f"a{a}") for a in range(nan)]

        def rule(a, key, e):
            def go(args, tag, name=None):
                st = loc.st
                if tag is not None:
                    st["started"][(tag, a)] += 1
                    if (tag, a) in st["done"]:
                        st["errors"].append(("recomputed", f"analysis {a} of step {tag} is computed again although it has a result"))
                    live = st["live"]
                    if (tag, a) not in live:
                        st["errors"].append(("not-requested", f"analysis {a} of step {tag} is computed although nobody asked for it (asked for: {sorted(live)})"))
                sim.event(st["id"], "rule", a, key, tag)
                sim.point("rule")
                fault(a, key, False)
                v = run(e, args, name)
                fault(a, key, True)
                if tag is not None:
                    st["done"].add((tag, a))
                return v

            if key == "apply":
                return lambda op, *args, tag=None, **kw: go(args, tag, op.__name__)
            return lambda *args, tag=None: go(args, tag)

        intps = []
        for a, d in enumerate(plan["analyses"]):
            intp = {ops[int(i)]: rule(a, i, e) for i, e in d["rules"].items()}
            if d["apply"]:
                intp[apply] = rule(a, "apply", d["apply"])
            intps.append(intp)

        def make():
            return productN({prompts[a]: intps[a] for a in range(nan)})

        shared = make()

        # ---- reference: every analysis alone
        class Ref:
            def __init__(self):
                self.steps, self.memo = {}, {}

            def subst(self, x, a):
                k = x[0]
                if k == "c":
                    return x[1]
                if k == "v":
                    return self.value(x[1], a)
                xs = [self.subst(y, a) for y in x[1]]
                return {**MAKE, **SEEN}[k](xs)

            def args(self, tag, a):
                return [self.subst(x, a) for x in self.steps[tag][1]]

            def value(self, tag, a):
                if (tag, a) not in self.memo:
                    self.memo[tag, a] = self.call(a, self.steps[tag][0], self.args(tag, a), tag)
                return self.memo[tag, a]

            def call(self, a, op, args, tag):
                d = plan["analyses"][a]
                if str(op) in d["rules"]:
                    return self.ev(d["rules"][str(op)], a, op, args, tag)
                if d["apply"]:
                    return self.ev(d["apply"], a, op, args, tag)
                return self.ev(plan["default"][op], a, op, args, tag)

            def ev(self, e, a, op, args, tag):
                k = e[0]
                if k == "arg":
                    return tot(args[e[1] % len(args)]) if args else 5
                if k == "const":
                    return e[1]
                if k == "add":
                    return (e[1] * self.ev(e[2], a, op, args, tag) + self.ev(e[3], a, op, args, tag)) % M
                if k == "call":
                    return self.call(a, e[1], [self.ev(x, a, op, args, tag) for x in e[2]], tag)
                if k == "other":
                    return self.value(tag, e[1]) + 1
                if k == "oargs":
                    return tot(self.args(tag, e[1]))
                if k == "name":
                    return len("op" + "x" * op)
                raise AssertionError(e)

            def asked(self, x):
                """Results that computing (tag, analysis) pairs of x may need."""
                out, todo = set(), list(x)
                while todo:
                    p = todo.pop()
                    if p in out:
                        continue
                    out.add(p)
                    for y in self.steps[p[0]][1]:
                        todo += [(v, a) for v in deps(y) for a in range(nan)]
                    # a rule may ask for the other analyses of its own step
                    todo += [(p[0], a) for a in range(nan) if (p[1], a) in wants]
                return out

        def deps(x):
            if x[0] == "v":
                return [x[1]]
            if x[0] == "c":
                return []
            return [v for y in x[1] for v in deps(y)]

        wants = set()
        for a, d in enumerate(plan["analyses"]):
            for e in [*d["rules"].values(), *([d["apply"]] if d["apply"] else [])]:
                wants |= {(a, b) for b in others(e)}

        def body(t):
            st = loc.st = {"id": t["id"], "count": collections.Counter(), "raised": [], "errors": [], "started": collections.Counter(),
                           "done": set(), "live": set()}
            ref = Ref()
            vals: dict = {}
            prod = make() if plan["own"] else shared

            def build(x, a=None):
                k = x[0]
                if k == "c":
                    return x[1]
                if k == "v":
                    return vals[x[1]]
                if k == "t":
                    return ops[x[1]](*[build(y) for y in x[3]], tag=x[2])
                xs = [build(y) for y in x[1]]
                return MAKE[k](xs)

            def attempt(what, fn):
                """Run until it does not fail by an injected fault."""
                for _ in range(12):
                    n = len(st["raised"])
                    try:
                        v = fn()
                    except core.Violation:
                        raise
                    except BaseException as e:  # noqa: BLE001
                        if not any(e is x for _, x in st["raised"][n:]):
                            if isinstance(e, core.HarnessError) or type(e).__name__ == "SimAbort":
                                raise
                            import traceback

                            raise core.Violation("foreign-error", f"{what} fails with {e!r} instead of {[x for _, x in st['raised'][n:]]}\n" + "".join(traceback.format_exception(e))[-1500:]) from None
                        sim.probe("failed")
                        continue
                    if len(st["raised"]) > n:
                        raise core.Violation("swallowed", f"{what} succeeds although {st['raised'][n:]} was raised")
                    if st["errors"]:
                        raise core.Violation(*st["errors"][0])
                    return v
                raise core.Violation("stuck", f"{what} keeps failing")

            def read(tag, a):
                st["live"] |= ref.asked([(tag, a)])
                got = attempt(f"reading analysis {a} of step {tag}", lambda: vals[tag].values(prompts[a]))
                want = ref.value(tag, a)
                if got != want:
                    raise core.Violation("result", f"analysis {a} of step {tag} gives {got!r}; alone it gives {want!r}")
                sim.probe("nontrivial")

            def main():
                for s in t["steps"]:
                    if s["k"] == "step":
                        if any(v not in vals for x in s["args"] for v in deps(x)):
                            continue
                        ref.steps[s["tag"]] = (s["op"], s["args"])
                        st["live"] |= ref.asked([(v, a) for x in s["args"] for v in deps(x) for a in range(nan)])
                        args = [build(x) for x in s["args"]]
                        vals[s["tag"]] = attempt(f"step {s['tag']}", lambda: ops[s["op"]](*args, tag=s["tag"]))
                        sim.probe("steps")
                    elif s["k"] == "term":
                        def walk(x):
                            ref.steps[x[2]] = (x[1], [["v", y[2]] if y[0] == "t" else y for y in x[3]])
                            for y in x[3]:
                                if y[0] == "t":
                                    walk(y)
                                    st["live"] |= ref.asked([(y[2], a) for a in range(nan)])

                        walk(s["t"])
                        term = terms[s["t"][2]]

                        def again():
                            # an evaluation that failed starts over, with steps of its own
                            st["done"].clear()
                            return evaluate(term, intp=prod) if s["t"][2] % 2 else evaluate(term)

                        keep = set(st["done"])
                        vals[s["t"][2]] = attempt(f"term {s['t'][2]}", again)
                        st["done"] |= keep
                        sim.probe("terms")
                    elif s["k"] == "read" and s["v"] in vals:
                        for _ in range(s["n"]):
                            read(s["v"], s["a"])

            terms = {s["t"][2]: build(s["t"]) for s in t["steps"] if s["k"] == "term"}
            with handler(prod):
                main()
                if not t["leave"]:
                    for v, a in t["final"]:
                        if v in vals:
                            read(v, a)
            if t["leave"]:
                for v, a in t["final"]:
                    if v in vals:
                        read(v, a)
            return st

        multi = len(plan["threads"]) > 1
        s = core.Scheduler(sim, plan["policy"], opcodes=plan["opcodes"], trace=multi)
        sim.last_sched = s
        for t in plan["threads"]:
            s.spawn(f"T{t['id']}", lambda t=t: body(t), tid=t["id"])
        for name, (kind, v) in s.run().items():
            if kind == "err":
                raise v


def signature(n, body):
    if n == 0:
        def o(*, tag: int | None = None) -> int:
            return body(())
    elif n == 1:
        def o(x: int, *, tag: int | None = None) -> int:
            return body((x,))
    else:
        def o(x: int, y: int, *, tag: int | None = None) -> int:
            return body((x, y))
    return o


def others(e):
    if not isinstance(e, list) or not e:
        return []
    if e[0] == "other":
        return [e[1]]
    return [b for x in e for b in others(x)]
