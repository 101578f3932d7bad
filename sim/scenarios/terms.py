"""C07 (and C02): building, evaluating, typing, comparing and printing symbolic terms.

Threads build random terms with binders (let, lambda, several variables at once,
deffn with beta-reduction) over shared variables and run every analysis on shared and
own terms, repeatedly, inside handler blocks, and again after an attempt that failed
part-way (a value's constructor or a handler raises). Results are compared up to the
choice of bound names with a reference lambda calculus; terms must stay unchanged."""


import collections
import collections.abc
import dataclasses
import math
import numbers
import operator
import re
import threading
import types
from collections.abc import Callable, Mapping
from typing import Annotated

from .. import core
from ..base import Scenario

_tl = threading.local()

Two = collections.namedtuple("Two", "first second")

SINGLE = {"set": lambda x: {x}, "frozen": lambda x: frozenset([x]), "items": lambda x: {"a": x}.items(), "partly": lambda x: Partly(x),
          "range": range, "counter": lambda x: collections.Counter({"k": x + 1})}

BIN = {"-": operator.sub, "*": operator.mul, "//": operator.floordiv, "%": operator.mod, "**": operator.pow, "<<": operator.lshift,
       ">>": operator.rshift, "&": operator.and_, "|": operator.or_, "^": operator.xor, "/": operator.truediv}
CMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}
UN = {"neg": operator.neg, "pos": operator.pos, "inv": operator.invert, "abs": abs, "trunc": math.trunc, "floor": math.floor,
      "ceil": math.ceil, "round": round, **{n: operator.attrgetter(n) for n in ("real", "imag", "numerator", "denominator")}}
OPNAME = {"__sub__": "-", "__mul__": "*", "__floordiv__": "//", "__mod__": "%", "__pow__": "**", "__lshift__": "<<", "__rshift__": ">>",
          "__and__": "&", "__or__": "|", "__xor__": "^", "__truediv__": "/", "__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">=",
          "__neg__": "neg", "__pos__": "pos", "__invert__": "inv", "__abs__": "abs", "__trunc__": "trunc", "__floor__": "floor",
          "__ceil__": "ceil", "__round__": "round", **{n: n for n in ("real", "imag", "numerator", "denominator")}}
NAMEOP = {v: k for k, v in OPNAME.items()}


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def _fault(where):
    sim = core.current()
    if sim is None:
        return
    tid = getattr(_tl, "tid", None)
    if tid is None:
        return
    f = sim.fault(f"T{tid}.{where}")
    if f is not None:
        _tl.fired = True
        raise {"Boom": Boom, "BaseBoom": BaseBoom, "KeyboardInterrupt": KeyboardInterrupt,
               "NotHandled": _tl.nothandled, "RecursionError": RecursionError}[f["kind"]](where)


@dataclasses.dataclass
class Payload:
    v: object

    def __post_init__(self):
        _fault("payload")


@dataclasses.dataclass(frozen=True)
class Partly:
    v: object
    rest: int = dataclasses.field(init=False, default=0)


def make_ops():
    """Fresh operations: nothing about them has been computed yet."""
    from effectful.ops.syntax import Scoped, defop
    from effectful.ops.types import NotHandled, Operation

    ns = {}

    def d(f):
        ns[f.__name__] = defop(f)

    @d
    def add(a: int, b: int) -> int:
        raise NotHandled

    @d
    def mul(a: int, *, b: int = 1) -> int:
        raise NotHandled

    @d
    def flag(a: int) -> bool:
        raise NotHandled

    @d
    def ite[T](c: bool, a: T, b: T) -> T:
        raise NotHandled

    @d
    def lst(*xs: int) -> list[int]:
        raise NotHandled

    @d
    def tot(xs) -> int:
        raise NotHandled

    @d
    def box(p: Payload) -> int:
        raise NotHandled

    @d
    def let[S, T, A, B](var: Annotated[Operation[[], S], Scoped[A]], val: Annotated[S, Scoped[B]],
                        body: Annotated[T, Scoped[A | B]]) -> Annotated[T, Scoped[B]]:
        raise NotHandled

    @d
    def lam[S, T, A, B](var: Annotated[Operation[[], S], Scoped[A]],
                        body: Annotated[T, Scoped[A | B]]) -> Annotated[Callable[[S], T], Scoped[B]]:
        raise NotHandled

    @d
    def sm[A, B](body: Annotated[int, Scoped[A | B]], *vs: Annotated[Operation[[], int], Scoped[A]]) -> Annotated[int, Scoped[B]]:
        raise NotHandled

    @d
    def letl[S, T, A, B](bindings: Annotated[list[tuple[Operation[[], T], T]], Scoped[A]],
                         body: Annotated[S, Scoped[A | B]]) -> Annotated[S, Scoped[B]]:
        raise NotHandled

    @d
    def letm[S, T, A, B](bindings: Annotated[Mapping[Operation[[], T], T], Scoped[A]],
                         body: Annotated[S, Scoped[A | B]]) -> Annotated[S, Scoped[B]]:
        raise NotHandled

    @d
    def unrelated(a: int) -> int:
        raise NotHandled

    for n in "xyz":
        ns[n] = defop(int, name=n)
    ns["f"] = defop(Callable[[int], int], name="f")
    return ns


# ---------------------------------------------------------------------------- reference
# AST: ["c", n] ["v", x] ["fv", "f"] ["add", a, b] ["mul", a, b] ["+", a, b] ["flag", a] ["ite", c, a, b]
# ["tot", kind, [a...]] ["box", a] ["lst", [a...]] ["let", x, val, body] ["lam", x, body] ["deffn", x, body]
# ["sm", [x...], body] ["letl"|"letm", [[x, val]...], body] ["app", fun, a] ["trace", x, body] (a deffn)
# ["bin"|"cmp", sym, a, b] ["un", sym, a] ["app2", ["deffn2", x, y, by keyword, body], a, b]
# "letmd": letm of a defaultdict


LETS = ("letl", "letm", "letmd")


def binders(t):
    """variables bound by the node, sub-terms inside their scope, sub-terms outside"""
    k = t[0]
    if k == "let":
        return [t[1]], [t[3]], [t[2]]
    if k in ("lam", "deffn", "trace"):
        return [t[1]], [t[2]], []
    if k == "deffn2":
        return [t[1], t[2]], [t[4]], []
    if k == "sm":
        return list(t[1]), [t[2]], []
    if k in LETS:
        return [x for x, _ in t[1]], [v for _, v in t[1]] + [t[2]], []
    return [], [], subterms(t)


def subterms(t):
    k = t[0]
    if k in ("c", "v", "fv"):
        return []
    if k == "tot":
        return t[2]
    if k == "lst":
        return t[1]
    if k in ("bin", "cmp", "un"):
        return t[2:]
    return t[1:]


def free(t):
    if t[0] in ("v", "fv"):
        return {t[1]}
    vs, ins, outs = binders(t)
    r = set()
    for s in ins:
        r |= free(s)
    r -= set(vs)
    for s in outs:
        r |= free(s)
    return r


def ops_used(t):
    k = t[0]
    if k in ("c", "v", "fv"):
        return set()
    name = NAMEOP[t[1]] if k in ("bin", "cmp", "un") else {"+": "__add__", "app": "__call__", **{x: x[:4] for x in LETS}}.get(k, k)
    r = {name}
    if k in LETS:
        kids = [v for _, v in t[1]] + [t[2]]
    else:
        _, i, o = binders(t)
        kids = i + o
    for s in kids:
        r |= ops_used(s)
    return r


_fresh = [0]


def rename(t, m):
    """capture-avoiding simultaneous substitution of variables by ASTs"""
    k = t[0]
    if k in ("v", "fv"):
        return m.get(t[1], t)
    if k == "c":
        return t
    vs, ins, outs = binders(t)
    if vs:
        inner = {x: s for x, s in m.items() if x not in vs}
        avoid = set().union(*(free(s) for s in inner.values())) if inner else set()
        ren = {}
        for v in vs:
            if v in avoid:
                _fresh[0] += 1
                ren[v] = f"{v}~{_fresh[0]}"
        inner = {**inner, **{v: ["v", n] for v, n in ren.items()}}
        g = lambda v: ren.get(v, v)  # noqa: E731
        if k == "let":
            return ["let", g(t[1]), rename(t[2], m), rename(t[3], inner)]
        if k in ("lam", "deffn", "trace"):
            return [k, g(t[1]), rename(t[2], inner)]
        if k == "deffn2":
            return [k, g(t[1]), g(t[2]), t[3], rename(t[4], inner)]
        if k == "sm":
            return ["sm", [g(v) for v in t[1]], rename(t[2], inner)]
        return [k, [[g(v), rename(s, inner)] for v, s in t[1]], rename(t[2], inner)]
    if k == "tot":
        return ["tot", t[1], [rename(s, m) for s in t[2]]]
    if k == "lst":
        return ["lst", [rename(s, m) for s in t[1]]]
    if k in ("bin", "cmp", "un"):
        return [k, t[1], *(rename(s, m) for s in t[2:])]
    return [k, *(rename(s, m) for s in t[1:])]


def nf(t):
    """what the library computes while building: constants added, deffn applied"""
    k = t[0]
    if k in ("c", "v", "fv"):
        return t
    if k == "let":
        return ["let", t[1], nf(t[2]), nf(t[3])]
    if k in ("lam", "deffn", "trace"):
        return ["deffn" if k == "trace" else k, t[1], nf(t[2])]
    if k == "deffn2":
        return [*t[:4], nf(t[4])]
    if k == "sm":
        return ["sm", t[1], nf(t[2])]
    if k in LETS:
        return [k, [[v, nf(s)] for v, s in t[1]], nf(t[2])]
    if k == "tot":
        return ["tot", t[1], [nf(s) for s in t[2]]]
    if k == "lst":
        return ["lst", [nf(s) for s in t[1]]]
    if k in ("bin", "cmp", "un"):
        t = [k, t[1], *(nf(s) for s in t[2:])]
        xs = t[2:]
        if all(x[0] == "c" for x in xs):
            return ["c", {**BIN, **CMP, **UN}[t[1]](*(x[1] for x in xs))]
        if k == "cmp" and xs[0][0] == "c":  # Python asks the right operand
            return [k, FLIP[t[1]], xs[1], xs[0]]
        return t
    t = [k, *(nf(s) for s in t[1:])]
    if k == "+" and t[1][0] == "c" and t[2][0] == "c":
        return ["c", t[1][1] + t[2][1]]
    if k == "app" and t[1][0] == "deffn":
        return nf(rename(t[1][2], {t[1][1]: t[2]}))
    if k == "app2":
        f = t[1]
        return nf(rename(f[4], {f[1]: t[2], f[2]: t[3]}))
    return t


def seqs(t):
    """structural comparison does not distinguish kinds of sequences"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "tot":
        return ("tot", {"tuple": "list", "mproxy": "dict", "ddict": "dict"}.get(t[1], t[1]), seqs(t[2]))
    if t[0] in LETS:
        return (t[0][:4], *map(seqs, t[1:]))
    return tuple(map(seqs, t))


def flip(k, *args):
    """comparisons with the constant on the right: which way round one is depends on how the term came about"""
    if k in FLIP and args[0][0] == "c" and args[1][0] != "c":
        return (FLIP[k], args[1], args[0])
    return (k, *args)


def canon(t, scope=()):
    """nameless form"""
    k = t[0]
    if k == "c":
        return ("c", t[1])
    if k in ("v", "fv"):
        for i in range(len(scope) - 1, -1, -1):
            if scope[i] == t[1]:
                return ("b", i)
        return ("v", t[1])
    if k == "let":
        return ("let", canon(t[2], scope), canon(t[3], (*scope, t[1])))
    if k in ("lam", "deffn"):
        return (k, canon(t[2], (*scope, t[1])))
    if k == "sm":
        return ("sm", len(t[1]), canon(t[2], (*scope, *t[1])))
    if k in LETS:
        sc = (*scope, *(v for v, _ in t[1]))
        return (k, tuple(canon(s, sc) for _, s in t[1]), canon(t[2], sc))
    if k == "tot":
        return ("tot", t[1] if t[2] or t[1] != "nested" else "list", tuple(canon(s, scope) for s in t[2]))
    if k == "lst":
        return ("lst", tuple(canon(s, scope) for s in t[1]))
    if k in ("bin", "cmp", "un"):
        return flip(t[1], *(canon(s, scope) for s in t[2:]))
    return (k, *(canon(s, scope) for s in t[1:]))


def value(t, env):
    k = t[0]
    if k == "c":
        return t[1]
    if k in ("v", "fv"):
        return env[t[1]]
    if k in ("add", "+"):
        return value(t[1], env) + value(t[2], env)
    if k == "mul":
        return value(t[1], env) * value(t[2], env)
    if k == "flag":
        return value(t[1], env) % 2 == 0
    if k == "ite":
        a, b, c = (value(s, env) for s in t[1:])
        return b if a else c
    if k == "tot":
        return sum(sum(v) if isinstance(v, list) else v for v in (value(s, env) for s in t[2]))
    if k == "box":
        return value(t[1], env) - 7
    if k == "lst":
        return [value(s, env) for s in t[1]]
    if k == "let":
        return value(t[3], {**env, t[1]: value(t[2], env)})
    if k in ("bin", "cmp", "un"):
        return {**BIN, **CMP, **UN}[t[1]](*(value(s, env) for s in t[2:]))
    if k == "app2":
        return value(t[1][4], {**env, t[1][1]: value(t[2], env), t[1][2]: value(t[3], env)})
    if k in ("lam", "deffn", "trace"):
        return lambda a: value(t[2], {**env, t[1]: a})
    if k == "sm":
        return value(t[2], {**env, **{v: 2 + i for i, v in enumerate(t[1])}})
    if k in LETS:
        return value(t[2], {**env, **{v: value(s, env) for v, s in t[1]}})
    if k == "app":
        return value(t[1], env)(value(t[2], env))
    raise AssertionError(k)


def kind_of(t):
    k = t[0]
    if k in ("lam", "deffn", "trace", "fv"):
        return collections.abc.Callable
    if k in ("flag", "cmp"):
        return bool
    if k == "c":
        return type(t[1])
    if k == "un":
        return {"abs": float, "real": float, "imag": float, "round": numbers.Real, "neg": None, "pos": None}.get(t[1], int) or kind_of(t[2])
    if k == "bin":
        return None  # that of its operands
    if k == "lst":
        return list
    if k == "let":
        return kind_of(t[3])
    if k in LETS:
        return kind_of(t[2])
    if k == "ite":
        return kind_of(t[2])
    return int


class TermGen:
    def __init__(self, r):
        self.r = r
        # a term of unknown type (an application) cannot be in a set, so no plan has both
        self.sets = r.random() < 0.5

    def int_(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.12:
            return ["v", r.choice("xyz")] if r.random() < 0.75 else ["c", r.randrange(4)]
        if x < 0.22:
            return ["add", self.int_(d - 1), self.int_(d - 1)]
        if x < 0.29:
            return ["mul", self.int_(d - 1), self.int_(d - 1)]
        if x < 0.33:
            return ["+", self.int_(d - 1), self.int_(d - 1)]
        if x < 0.37:
            sym = r.choice(["-", "*", "&", "|", "^", "//", "%", "**", "<<", ">>"])
            return ["bin", sym, self.int_(d - 1), ["c", r.choice([1, 2, 3])] if sym in ("//", "%", "**", "<<", ">>") else self.int_(d - 1)]
        if x < 0.39:
            return ["un", r.choice(["neg", "pos", "inv", "trunc", "floor", "ceil", "numerator", "denominator"]), self.int_(d - 1)]
        if x < 0.43:
            c = ["cmp", r.choice(list(CMP)), self.int_(d - 1), ["c", 1.5] if r.random() < 0.3 else self.int_(d - 1)]
            if r.random() < 0.4:
                c = ["cmp", c[1], ["un", r.choice(["abs", "round", "round", "real", "imag"]), c[2]], ["c", r.randrange(4)]]
            return ["ite", r.choice([c, c, ["flag", self.int_(d - 1)]]), ["add", self.int_(d - 2), self.int_(d - 1)], ["add", self.int_(d - 1), ["v", "y"]]]
        if x < 0.48:
            kind = r.choice(["list", "tuple", "dict", "nested", "named", "ddict", "mproxy", "set", "frozen", "items", "partly", "range", "counter"])
            if kind in ("range", "counter"):
                return ["tot", kind, [["c", r.randrange(4)]]]
            if kind in ("set", "frozen", "items") and not self.sets:
                kind = "partly"
            if kind in ("set", "frozen", "items", "partly"):
                return ["tot", kind, [r.choice([["v", r.choice("xyz")], ["+", self.int_(d - 1), self.int_(d - 1)]])]]
            return ["tot", kind, [self.int_(d - 1) for _ in range(2 if kind == "named" else r.choice([0, 1, 2]))]]
        if x < 0.53:
            return ["box", self.int_(d - 1)]
        if x < 0.57:
            return ["tot", "term", [["lst", [self.int_(d - 1) for _ in range(r.choice([1, 2]))]]]]
        if x < 0.72:
            return ["let", r.choice("xyz"), self.int_(d - 1), self.int_(d - 1)]
        if x < 0.79:
            return ["sm", r.sample("xyz", r.choice([1, 2])), self.int_(d - 1)]
        if x < 0.87:
            vs = r.sample("xyz", r.choice([1, 2]))
            return [r.choice(LETS), [[v, self._without(self.int_(d - 1), vs)] for v in vs], self.int_(d - 1)]
        if self.sets:
            return ["let", r.choice("xyz"), self.int_(d - 1), self.int_(d - 1)]
        if r.random() < 0.25:
            x, y = r.sample("xyz", 2)
            return ["app2", ["deffn2", x, y, r.random() < 0.5, self.int_(d - 1)], self.int_(d - 1), self.int_(d - 1)]
        return ["app", self.fun(d - 1), self.int_(d - 1)]

    def _without(self, t, vs):
        return rename(t, {v: ["c", 1] for v in vs})

    def fun(self, d):
        r = self.r
        x = r.random()
        if x < 0.25:
            return ["fv", "f"]
        if x < 0.65:
            return ["lam", r.choice("xyz"), self.int_(d)]
        x, b = r.choice("xyz"), self.int_(d)
        if r.random() < 0.3 and not has(b, "app") and not has(b, "app2"):
            return ["trace", x, b]
        return ["deffn", x, b]

    def term(self):
        d = self.r.choice([1, 2, 3, 3])
        return self.fun(d) if self.r.random() < 0.25 else self.int_(d)


class Lib:
    """The library's side: build an AST, and read a term back through its public parts."""

    def __init__(self, ops):
        from effectful.ops.syntax import deffn, trace
        from effectful.ops.types import Operation, Term

        self.trace = trace
        self.ops, self.deffn, self.Term, self.Operation = ops, deffn, Term, Operation
        self.name = {id(o): n for n, o in ops.items()}
        self.name[id(deffn)] = "deffn"

    def mk(self, t, env=None):
        """`env` gives the terms to use for variables of traced functions."""
        o = self.ops
        env = env or {}
        bound = binders(t)[0]

        def mk(s):
            return self.mk(s, env)

        def mki(s):  # inside the scope of what t binds
            return self.mk(s, {v: e for v, e in env.items() if v not in bound})

        k = t[0]
        if k == "c":
            return t[1]
        if k in ("v", "fv"):
            return env[t[1]] if t[1] in env else o[t[1]]()
        if k == "add":
            return o["add"](mk(t[1]), mk(t[2]))
        if k == "mul":
            return o["mul"](mk(t[1]), b=mk(t[2]))
        if k == "+":
            return mk(t[1]) + mk(t[2])
        if k in ("flag", "ite"):
            return o[k](*(mk(s) for s in t[1:]))
        if k == "tot":
            xs = [mk(s) for s in t[2]]
            if t[1] == "term":
                return o["tot"](*xs)
            if t[1] in SINGLE:
                return o["tot"](SINGLE[t[1]](*xs))
            return o["tot"]({"list": xs, "tuple": tuple(xs), "dict": {f"k{i}": x for i, x in enumerate(xs)},
                             "nested": [{"a": (x,)} for x in xs], "named": Two(*xs[:2]) if len(xs) > 1 else None,
                             "ddict": collections.defaultdict(list, {f"k{i}": x for i, x in enumerate(xs)}),
                             "mproxy": types.MappingProxyType({f"k{i}": x for i, x in enumerate(xs)})}[t[1]])
        if k == "box":
            return o["box"](Payload(mk(t[1])))
        if k == "lst":
            return o["lst"](*(mk(s) for s in t[1]))
        if k == "let":
            return o["let"](o[t[1]], mk(t[2]), mki(t[3]))
        if k == "lam":
            return o["lam"](o[t[1]], mki(t[2]))
        if k == "deffn":
            return self.deffn(mki(t[2]), o[t[1]])
        if k == "trace":
            def traced(v: int) -> int:
                return self.mk(t[2], {**env, t[1]: v})

            return self.trace(traced)
        if k == "deffn2":
            return self.deffn(mki(t[4]), o[t[1]], **{"k": o[t[2]]}) if t[3] else self.deffn(mki(t[4]), o[t[1]], o[t[2]])
        if k == "app2":
            return mk(t[1])(mk(t[2]), **{"k": mk(t[3])}) if t[1][3] else mk(t[1])(mk(t[2]), mk(t[3]))
        if k in ("bin", "cmp", "un"):
            return {**BIN, **CMP, **UN}[t[1]](*(mk(s) for s in t[2:]))
        if k == "sm":
            return o["sm"](mki(t[2]), *(o[v] for v in t[1]))
        if k == "letl":
            return o["letl"]([(o[v], mki(s)) for v, s in t[1]], mki(t[2]))
        if k in LETS:
            m = {o[v]: mki(s) for v, s in t[1]}
            return o["letm"](collections.defaultdict(list, m) if k == "letmd" else m, mki(t[2]))
        if k == "app":
            return mk(t[1])(mk(t[2]))
        raise AssertionError(k)

    def canon(self, e, scope=()):
        if not isinstance(e, self.Term):
            if isinstance(e, self.Operation):
                raise core.Violation("malformed-term", f"an operation {e} where an expression belongs")
            return ("c", e)
        n = self.name.get(id(e.op))
        a = tuple(e.args)
        c = self.canon
        if n is None:
            if not a and not e.kwargs:
                for i in range(len(scope) - 1, -1, -1):
                    if scope[i] is e.op:
                        return ("b", i)
                raise core.Violation("scope", f"the variable {e.op} occurs outside the scope that binds it")
            n = {"__add__": "+", "__call__": "app", **OPNAME}.get(e.op.__name__, e.op.__name__)
        for v in scope:
            if v is e.op:
                return ("b", scope.index(v))
        if n in ("x", "y", "z", "f"):
            return ("v", n)
        if n == "let":
            return ("let", c(a[1], scope), c(a[2], self.bind(scope, a[0])))
        if n == "lam":
            return ("lam", c(a[1], self.bind(scope, a[0])))
        if n == "deffn":
            return ("deffn", c(a[0], self.bind(scope, *a[1:])))
        if n == "sm":
            return ("sm", len(a) - 1, c(a[0], self.bind(scope, *a[1:])))
        if n in ("letl", "letm"):
            items = list(a[0].items()) if n == "letm" else list(a[0])
            sc = self.bind(scope, *(v for v, _ in items))
            n = {list: "letl", dict: "letm", collections.defaultdict: "letmd"}[type(a[0])]
            return (n, tuple(c(s, sc) for _, s in items), c(a[1], sc))
        if n == "tot":
            x = a[0]
            if isinstance(x, self.Term):
                return ("tot", "term", (c(x, scope),))
            if isinstance(x, (set, frozenset)):
                x, = x
                return ("tot", "items", (c(x[1], scope),)) if isinstance(x, tuple) else ("tot", "frozen" if isinstance(a[0], frozenset) else "set", (c(x, scope),))
            if isinstance(x, Partly):
                return ("tot", "partly", (c(x.v, scope),))
            if isinstance(x, range):
                return ("tot", "range", (("c", len(x)),))
            if isinstance(x, collections.Counter):
                return ("tot", "counter", (("c", x["k"] - 1),))
            if isinstance(x, collections.abc.Mapping):
                if isinstance(x, collections.defaultdict) and x.default_factory is not list:
                    raise core.Violation("malformed-term", f"structured argument became {x}")
                return ("tot", {dict: "dict", collections.defaultdict: "ddict", types.MappingProxyType: "mproxy"}.get(type(x), type(x)),
                        tuple(c(s, scope) for s in x.values()))
            if isinstance(x, Two):
                return ("tot", "named", tuple(c(s, scope) for s in x))
            if isinstance(x, list) and x and isinstance(x[0], dict):
                if any(list(s) != ["a"] or not isinstance(s["a"], tuple) for s in x):
                    raise core.Violation("malformed-term", f"structured argument became {x}")
                return ("tot", "nested", tuple(c(s["a"][0], scope) for s in x))
            if isinstance(x, list):
                return ("tot", "list", tuple(c(s, scope) for s in x))
            return ("tot", "tuple", tuple(c(s, scope) for s in x))
        if n == "box":
            return ("box", c(a[0].v, scope))
        if n == "lst":
            return ("lst", tuple(c(s, scope) for s in a))
        if n == "mul":
            return ("mul", c(a[0], scope), c(e.kwargs["b"], scope))
        if n == "round":
            if a[1:] not in ((), (None,)) or e.kwargs:
                raise core.Violation("malformed-term", f"round got {a} {e.kwargs}")
            return (n, c(a[0], scope))
        return flip(n, *(c(s, scope) for s in a))

    def bind(self, scope, *vs):
        for v in vs:
            if not isinstance(v, self.Operation):
                raise core.Violation("malformed-term", f"a binder binds {v!r}")
            if any(v is s for s in scope) or id(v) in self.name or len({id(x) for x in vs}) != len(vs):
                raise core.Violation("scope", f"the bound variable {v} is not distinct from every other variable")
        return (*scope, *vs)

    def snap(self, e):
        """identity-level picture of a term, to see whether anything changed it"""
        T = self.Term
        if isinstance(e, T):
            return (id(e), id(e.op), tuple(self.snap(a) for a in e.args), tuple((k, self.snap(v)) for k, v in e.kwargs.items()))
        if isinstance(e, (list, tuple)):
            return (type(e).__name__, id(e) if isinstance(e, list) else 0, tuple(self.snap(a) for a in e))
        if isinstance(e, collections.abc.Mapping):
            return (type(e).__name__, id(e), tuple((id(k) if isinstance(k, self.Operation) else k, self.snap(v)) for k, v in e.items()))
        if isinstance(e, (Payload, Partly)):
            return ("payload", id(e), self.snap(e.v))
        if isinstance(e, (set, frozenset)):
            return (type(e).__name__, id(e), tuple(self.snap(a) for a in e))
        if isinstance(e, self.Operation):
            return ("op", id(e))
        return repr(e)

    def ops_in(self, e, out):
        if isinstance(e, self.Term):
            out.add(id(e.op))
            for a in (*e.args, *e.kwargs.values()):
                self.ops_in(a, out)
        elif isinstance(e, (list, tuple, set, frozenset)):
            for a in e:
                self.ops_in(a, out)
        elif isinstance(e, Partly):
            self.ops_in(e.v, out)
        elif isinstance(e, collections.abc.Mapping):
            for k, a in e.items():
                self.ops_in(k, out)
                self.ops_in(a, out)
        elif isinstance(e, self.Operation):
            out.add(id(e))


def has(t, kind):
    if t[0] == kind:
        return True
    if t[0] in LETS:
        return any(has(v, kind) for _, v in t[1]) or has(t[2], kind)
    _, i, o = binders(t)
    return any(has(s, kind) for s in i + o)


class Terms(Scenario):
    name = "terms"

    def setup(self):
        import effectful.internals.product_n
        import effectful.internals.runtime
        import effectful.internals.unification
        import effectful.ops.semantics
        import effectful.ops.syntax
        import effectful.ops.types

        ops = make_ops()  # imports inside functions of the library happen now
        def build():
            lib = Lib(ops)
            t = lib.mk(["let", "x", ["c", 1], ["app", ["lam", "y", ["+", ["v", "x"], ["v", "y"]]], ["tot", "list", [["v", "x"]]]]])
            effectful.ops.semantics.typeof(t)
            str(t)

        core.warm(build)

    def generate(self, rng, prop, tier):
        g = TermGen(rng)
        pool = [g.term() for _ in range(rng.choice([1, 2, 3]))]
        threads = []
        nt = rng.choice([1, 2, 2, 3])
        for t in range(nt):
            ops = []
            for _ in range(rng.choice([2, 4, 6])):
                x = rng.random()
                a = {"in": rng.random() < 0.3, "t": rng.randrange(8)}
                if x < 0.28:
                    a.update(a="build", ast=g.term())
                elif x < 0.40:
                    a.update(a="fv")
                elif x < 0.49:
                    a.update(a="type")
                elif x < 0.60:
                    a.update(a="str")
                elif x < 0.67:
                    a.update(a="eq", u=rng.randrange(8))
                elif x < 0.80:
                    dom = rng.sample("xyz", rng.choice([1, 1, 2]))
                    sub = {}
                    for v in dom:
                        s = g.int_(rng.choice([1, 2]))
                        sub[v] = rename(s, {w: ["c", 2] for w in dom})
                    if rng.random() < 0.4:
                        s = g.fun(2)
                        sub["f"] = rename(s, {**{w: ["c", 2] for w in dom}, "f": ["lam", "x", ["v", "x"]]})
                    if rng.random() < 0.2:  # variables for others not replaced themselves, as operations
                        sub = {v: ["v", rng.choice([w for w in "xyz" if w not in dom])] for v in dom}
                        a["ops"] = True
                    a.update(a="subst", sub=sub)
                elif x < 0.95:
                    a.update(a="full", env={v: rng.randrange(5) for v in "xyz"})
                else:
                    a.update(a="bad", how=rng.randrange(3))
                ops.append(a)
            threads.append({"id": t, "ops_list": ops})
        faults = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            faults.append({"site": f"T{rng.randrange(nt)}.{rng.choice(['payload', 'handler'])}", "nth": rng.choice([0, 1, 2, 4, 7]),
                           "kind": rng.choice(["Boom", "Boom", "BaseBoom", "KeyboardInterrupt", "RecursionError"])})
        return {"pool": pool, "threads": threads, "faults": faults, "prebuilt": rng.random() < 0.7,
                "policy": core.gen_policy(rng, 4000), "opcodes": rng.random() < 0.2}

    def semantics(self, lib):
        from effectful.ops.semantics import evaluate, fwd, handler

        o, Term = lib.ops, lib.Term

        def concrete(x):
            if isinstance(x, Term):
                return False
            if isinstance(x, (list, tuple, set, frozenset)):
                return all(concrete(y) for y in x)
            if isinstance(x, collections.abc.Mapping):
                return all(concrete(y) for y in x.values())
            if isinstance(x, (Payload, Partly)):
                return concrete(x.v)
            return True

        def on(f):
            def h(*a, **k):
                _fault("handler")
                if all(concrete(x) for x in (*a, *k.values())):
                    return f(*a, **k)
                return fwd()
            return h

        def tot(x):
            if isinstance(x, collections.Counter):
                return x["k"] - 1
            if isinstance(x, range):
                return len(x)
            if isinstance(x, Partly):
                return tot(x.v)
            if isinstance(x, (set, frozenset)):
                return sum(tot(y[1] if isinstance(y, tuple) else y) for y in x)
            if isinstance(x, collections.abc.Mapping):
                return sum(tot(y) for y in x.values())
            return sum(tot(y) for y in x) if isinstance(x, (list, tuple)) else x

        def under(subs, body):
            with handler({v: (lambda s=s: s) for v, s in subs.items()}):
                return evaluate(body)

        def let(var, val, body):
            return under({var: val}, body)

        def call(f, a):
            _fault("handler")
            if isinstance(f, Term) and f.op is o["lam"] and concrete(a):
                return under({f.args[0]: a}, f.args[1])
            if not isinstance(f, Term) and concrete(a):
                return f(a)
            return fwd()

        def sm(body, *vs):
            return under({v: 2 + i for i, v in enumerate(vs)}, body)

        def letl(bs, body):
            return under(dict(bs), body)

        return {o["add"]: on(lambda a, b: a + b), o["mul"]: on(lambda a, *, b=1: a * b), o["flag"]: on(lambda a: a % 2 == 0),
                o["ite"]: on(lambda c, a, b: a if c else b), o["tot"]: on(tot), o["box"]: on(lambda p: p.v - 7),
                o["lst"]: on(lambda *xs: list(xs)), o["let"]: let, o["f"]()(1).op: call,
                o["sm"]: sm, o["letl"]: letl, o["letm"]: letl}

    def execute(self, plan, sim):
        from effectful.ops.semantics import evaluate, fvsof, handler, typeof
        from effectful.ops.syntax import syntactic_eq
        from effectful.ops.types import NotHandled

        ops = make_ops()
        lib = Lib(ops)
        shared: list = []
        sem = self.semantics(lib)
        strs: dict = {}

        def note(t, e):
            """a term just built: it must be what the reference builds"""
            want, got = canon(nf(t)), lib.canon(e)
            if got != want:
                raise core.Violation("wrong-term", f"building {t} gave {got}, the reference gives {want}")
            return (t, e, lib.snap(e))

        if plan["prebuilt"]:
            shared = [note(t, lib.mk(t)) for t in plan["pool"]]

        def show(t, e):
            s = str(e)
            key = repr(canon(nf(t)))
            strs.setdefault((key, repr(nf(t)) if "~" not in repr(nf(t)) else None), s)
            first = strs[key, repr(nf(t)) if "~" not in repr(nf(t)) else None]
            if "~" not in repr(nf(t)) and not ((has(t, "app") or has(t, "app2")) and (has(t, "deffn") or has(t, "deffn2"))) and not has(t, "trace") and first != s:
                raise core.Violation("print-differs", f"{t} printed as {s!r} and as {first!r}")
            if not isinstance(e, lib.Term):
                return s
            if not has(nf(t), "box"):
                names = {m for m in re.findall(r"[A-Za-z_]\w*(?:!\d+)?(?![\w!]*=)(?!':)", re.sub(r"'?k\d*'?:|'?a'?[:,]", "", s))} - {"True", "False", "None", "range", "frozenset", "Partly"}
                used: set = set()
                lib.ops_in(e, used)
                if len(names) != len(used):
                    raise core.Violation("print-conflates", f"{s!r} shows {len(names)} names for {len(used)} distinct operations")
            return s

        def run(th):
            tid = th["id"]
            _tl.tid, _tl.fired = tid, False
            _tl.nothandled = NotHandled
            own: list = []
            if not plan["prebuilt"]:
                shared_here = []
                for t in plan["pool"]:
                    shared_here.append(note(t, retry(lambda t=t: lib.mk(t))))
            else:
                shared_here = shared
            for a in th["ops_list"]:
                terms = shared_here + own
                if a["a"] == "build":
                    got = step(a, lambda a=a: lib.mk(a["ast"]), tid)
                    own.append(note(a["ast"], got))
                    sim.event(tid, "build", canon(nf(a["ast"])))
                    continue
                if not terms:
                    continue
                t, e, _ = terms[a["t"] % len(terms)]
                n = nf(t)
                if a["a"] == "fv":
                    got = step(a, lambda: set(fvsof(e)), tid)
                    unknown = [o for o in got if id(o) not in lib.name and o.__name__ not in ("__add__", "__call__", *OPNAME)]
                    names = {lib.name.get(id(o), o.__name__) for o in got}
                    want = free(n) | ops_used(n) if isinstance(e, lib.Term) else set()
                    sim.event(tid, "fv", sorted(names))
                    if unknown or names != want:
                        raise core.Violation("free-variables", f"fvsof({e}) = {sorted(names)} (unknown {unknown}), reference {sorted(want)}")
                elif a["a"] == "type":
                    got = step(a, lambda: typeof(e), tid)
                    want = kind_of(n)
                    if want is None:
                        sim.event(tid, "type", str(got))
                        continue
                    sim.event(tid, "type", getattr(got, "__name__", str(got)))
                    if got is not want:
                        raise core.Violation("type", f"typeof({e}) = {got}, reference {want}")
                elif a["a"] == "str":
                    s = step(a, lambda: show(t, e), tid)
                    sim.event(tid, "str", s)
                elif a["a"] == "eq":
                    t2, e2, _ = terms[a["u"] % len(terms)]
                    got = step(a, lambda: (syntactic_eq(e, e), syntactic_eq(e, e2), syntactic_eq(e2, e)), tid)
                    same = seqs(canon(n)) == seqs(canon(nf(t2)))
                    sim.event(tid, "eq", got)
                    if got[0] is not True or got[1] != got[2]:
                        raise core.Violation("equality", f"{e} == itself: {got[0]}, {e} == {e2}: {got[1]}, reversed: {got[2]}")
                    if got[1] and not same:
                        raise core.Violation("equality", f"{e} == {e2} although they differ")
                    bound = any(has(n, k) for k in ("let", "lam", "deffn", "sm", *LETS))
                    flips = any(has(s, "cmp") and (has(s, "app") or has(s, "app2")) for s in (t, t2))
                    if same and not bound and not flips and not has(n, "box") and not got[1]:
                        raise core.Violation("equality", f"{e} != {e2} although they are built alike")
                elif a["a"] == "subst":
                    subs = {x: retry(lambda s=s: lib.mk(s)) for x, s in a["sub"].items()}
                    intp = {ops[x]: (lambda s=s: s) for x, s in subs.items()}
                    if a.get("ops"):
                        intp = {ops[x]: ops[s[1]] for x, s in a["sub"].items()}

                    def act(intp=intp, e=e):
                        if a["t"] % 2 and not a.get("ops"):
                            with handler(intp):
                                return evaluate(e)
                        return evaluate(e, intp=intp)

                    got = step(a, act, tid)
                    want = nf(rename(n, a["sub"]))
                    sim.event(tid, "subst", canon(want))
                    if lib.canon(got) != canon(want):
                        raise core.Violation("substitution", f"substituting {a['sub']} in {t} gave {lib.canon(got)}, reference {canon(want)}")
                elif a["a"] == "full":
                    env = {**a["env"], "f": lambda v: v * 3 + 1}
                    intp = {**sem, **{ops[v]: (lambda v=v: a["env"][v]) for v in "xyz"}, ops["f"]: lambda: env["f"]}

                    def act(intp=intp, e=e):
                        with handler(intp):
                            r = evaluate(e)
                            return r(4) if kind_of(n) is collections.abc.Callable else r

                    got = step(a, act, tid)
                    want = value(n, env)
                    want = want(4) if callable(want) else want
                    sim.event(tid, "full", repr(want))
                    if isinstance(got, lib.Term) or got != want:
                        raise core.Violation("value", f"{t} under {a['env']} evaluates to {got}, reference {want}")
                elif a["a"] == "bad":
                    try:  # an attempt that fails part-way, or not; either way it changes nothing
                        if a["how"] == 0:
                            ops["add"](e)
                        elif a["how"] == 1:
                            ops["let"](ops["x"], e, 1, 2)
                        else:
                            ops["sm"](e, ops["x"], ops["x"])
                    except Exception:
                        sim.probe("failed_attempt")
            for t, e, s in shared_here + own:
                if lib.snap(e) != s:
                    raise core.Violation("term-changed", f"the term built from {t} was changed")

        def retry(f):
            try:
                return f()
            except BaseException:
                if not _tl.fired:
                    raise
                _tl.fired = False
                return retry(f)

        def step(a, f, tid):
            """Run f, possibly inside a handler block; again if an injected failure ended it."""
            for _ in range(8):
                _tl.fired = False
                with handler({ops["unrelated"]: lambda v: ("mine", tid, v)}) if a["in"] else _null():
                    try:
                        return f()
                    except BaseException as exc:
                        if not _tl.fired or isinstance(exc, core.Violation):
                            raise
                        if type(exc).__name__ not in ("Boom", "BaseBoom", "KeyboardInterrupt", "RecursionError"):
                            raise
                        sim.event(tid, "failed", type(exc).__name__)
                        sim.probe("failed_attempt")
                    finally:
                        got = ops["unrelated"](5)
                        ok = got == ("mine", tid, 5) if a["in"] else isinstance(got, lib.Term)
                        if not ok:
                            raise core.Violation("handlers-changed", f"after {a['a']} the surrounding handlers answer {got!r}")
            raise core.HarnessError("faults never end")

        multi = len(plan["threads"]) > 1
        s = core.Scheduler(sim, plan["policy"], opcodes=plan["opcodes"], trace=multi)
        sim.last_sched = s
        for th in plan["threads"]:
            s.spawn(f"T{th['id']}", lambda th=th: run(th), tid=th["id"])
        out = s.run()
        for name, (kind, e) in out.items():
            if kind == "err":
                raise e
        if sum(len(t["ops_list"]) for t in plan["threads"]) > 1:
            sim.probe("nontrivial")


class _null:
    def __enter__(self):
        return None

    def __exit__(self, *a):
        return False
