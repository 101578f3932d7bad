"""T01: computations on arrays with named dimensions and transformed functions.

Random expressions over named tensors and random functions, transformed (grad, jacobians,
jvp, vjp, vmap, jit) and called again and again with other names, shapes and structures,
with failures inside them and from several threads sharing them. Every result is compared,
at every assignment of its names, with the plain library on the slices."""

from __future__ import annotations

import collections
import itertools
import threading

from .. import core
from ..base import Scenario


class Oops(Exception):
    pass


class Abort(BaseException):
    pass


EXC = {"Oops": Oops, "ValueError": ValueError, "AssertionError": AssertionError, "RuntimeError": RuntimeError,
       "KeyError": KeyError, "Abort": Abort, "KeyboardInterrupt": KeyboardInterrupt}
SIZES = {"a": 2, "b": 3, "c": 2, "d": 3}
VEC = 3
NLEAF = 5


def names(e):
    """Named dimensions of the value of a closed expression; arguments count as none."""
    k = e[0]
    if k == "T":
        return set(e[2])
    if k == "red":
        return names(e[2]) - {e[1]}
    if k == "gather":
        return (names(e[2]) - {e[1]}) | {e[3]}
    return set().union(*[names(x) for x in e if isinstance(x, list) and x and isinstance(x[0], str)])


class Arrays(Scenario):
    name = "arrays"
    backend = "torch"

    def setup(self):
        import torch

        torch.set_num_threads(1)
        import torch._functorch.eager_transforms

        import effectful.handlers.torch  # noqa: F401
        import effectful.internals.runtime  # noqa: F401
        from effectful.handlers.torch import grad, hessian, jvp, sizesof, vjp, vmap
        from effectful.ops.syntax import defop

        a = defop(torch.Tensor, name="a")
        x = torch.ones(2, 3)
        try:
            x = x[a()]
        except Exception:  # noqa: BLE001
            pass
        core.warm(
            lambda: vmap(torch.sin)(x),
            lambda: hessian(lambda t: torch.sum(t * t))(x),
            lambda: jvp(torch.sin, (x,), (x,)),
            lambda: vjp(torch.sin, x)[1](x),
            lambda: grad(lambda t: torch.sum(t))(x),
            lambda: sizesof(x),
        )

    # ---------------------------------------------------------------- plans

    def generate(self, rng, prop, tier):
        r = rng
        pool = r.sample("abcd", r.choice([1, 2, 2, 3]))
        hidden = [n for n in "abcd" if n not in pool]

        def expr(nargs, depth=0, allow=None):
            """A vector-valued expression."""
            allow = pool if allow is None else allow
            x = r.random()
            if depth > 2 or x < 0.3:
                if nargs and r.random() < 0.65:
                    return ["arg", r.randrange(nargs)]
                ns = r.sample(allow, r.randrange(0, len(allow) + 1))
                return ["T", r.randrange(NLEAF), ns]
            if x < 0.45:
                return ["un", r.choice(["sin", "neg", "tanh", "square"]), expr(nargs, depth + 1, allow)]
            if x < 0.78:
                return ["bin", r.choice(["add", "sub", "mul"]), expr(nargs, depth + 1, allow), expr(nargs, depth + 1, allow)]
            if x < 0.86:
                return ["boom", r.randrange(3), expr(nargs, depth + 1, allow)]
            # names bound inside are never names of arguments
            if not hidden:
                return ["T", r.randrange(NLEAF), []]
            n = r.choice(hidden)
            e = ["bin", r.choice(["add", "mul"]), ["T", r.randrange(NLEAF), [n]], expr(0, depth + 1, [*allow, n] if n not in allow else allow)]
            if r.random() < 0.5 or not allow:
                return ["red", n, e]
            to = r.choice(allow)
            if to == n or to in names(e):
                return ["red", n, e]
            return ["gather", n, e, to]

        fns = []
        for _ in range(r.choice([1, 2, 3])):
            kind = r.choice(["vec", "vec", "scalar", "dict"])
            na = 1 if kind == "dict" else r.choice([1, 1, 2])
            if kind == "scalar":
                b = expr(na, allow=[])
                f = {"kind": kind, "n": na, "body": {"": ["sum", b]}}
                trs = [["grad"], ["grad"], ["hessian"], ["grad", "vmap"], ["vmap"], ["jacrev"], ["grad", "jacrev"], ["jacfwd"]]
            elif kind == "vec":
                f = {"kind": kind, "n": na, "body": {"": ["bin", r.choice(["add", "mul"]), ["arg", 0], expr(na)]}}
                trs = [["vmap"], ["vmap"], ["jacfwd"], ["jacrev"], ["jvp"], ["vjp"], ["jacrev", "vmap"], []]
            else:
                f = {"kind": kind, "n": 1, "body": {k: ["bin", r.choice(["add", "mul"]), ["arg", 0], expr(1)] for k in "pqr"}}
                trs = [["vmap"], ["vmap"], ["vmap"], []]
            f["tr"] = r.choice(self.transforms(trs))
            if r.random() < 0.5:
                k = r.choice(list(f["body"]))
                f["body"][k] = ["boom", r.randrange(3), f["body"][k]]
            fns.append(f)

        def arg(f):
            ns = r.sample(pool, r.randrange(0, len(pool) + 1))
            return ["T", r.randrange(NLEAF), ns]

        threads = []
        for t in range(r.choice([1, 1, 2, 2, 3])):
            stmts = []
            for _ in range(r.choice([1, 2, 3, 5])):
                if r.random() < 0.25:
                    stmts.append({"k": "expr", "e": expr(0)})
                    continue
                i = r.randrange(len(fns))
                f = fns[i]
                s = {"k": "call", "f": i, "kw": 0}
                if f["kind"] == "dict":
                    s["keys"] = r.sample("pqr", r.choice([1, 1, 2, 3]))
                    s["args"] = [arg(f) for _ in s["keys"]]
                else:
                    s["args"] = [arg(f) for _ in range(f["n"])]
                    if f["n"] == 2 and r.random() < 0.3:
                        s["kw"] = 1
                s["perm"] = r.getrandbits(30)
                stmts.append(s)
            threads.append({"id": t, "steps": stmts})
        if len(threads) > 1:
            # torch keeps the level of forward-mode differentiation in a global
            for f in fns:
                f["tr"] = [{"jvp": "vjp", "jacfwd": "jacrev", "hessian": "grad"}.get(t, t) for t in f["tr"]]
        oops = [{"t": r.randrange(len(threads)), "b": r.randrange(3), "n": r.choice([0, 0, 1, 2, 4]), "exc": r.choice(list(EXC))}
                for _ in range(r.choice([0, 2, 3, 4]))]
        return {"fns": fns, "threads": threads, "oops": oops, "faults": [], "seed": r.getrandbits(30),
                "policy": core.gen_policy(r, 4000), "opcodes": False, "own": r.random() < 0.2}

    def transforms(self, trs):
        return trs

    # ------------------------------------------------------------ execution

    def lib(self):
        import torch

        import effectful.handlers.torch as E
        import torch.func as P

        class L:
            T = torch.Tensor
            ops = {"sin": torch.sin, "neg": torch.neg, "tanh": torch.tanh, "square": torch.square,
                   "add": torch.add, "sub": torch.sub, "mul": torch.mul}
            sum = staticmethod(lambda x, d: torch.sum(x, d))
            sizesof = staticmethod(E.sizesof)
            bind = staticmethod(lambda v, *n: E.bind_dims(v, *n))
            getitem = staticmethod(lambda t, k: t[k])
            eff = {k: getattr(E, k) for k in ("grad", "jacfwd", "jacrev", "hessian", "vmap", "jvp", "vjp")}
            plain = {k: getattr(P, k) for k in ("grad", "jacfwd", "jacrev", "hessian", "vmap", "jvp", "vjp")}
            stack = staticmethod(torch.stack)

            @staticmethod
            def make(rng, shape):
                n = 1
                for s in shape:
                    n *= s
                return torch.tensor([rng.uniform(-1, 1) for _ in range(n)]).reshape(shape)

            @staticmethod
            def index(xs):
                return torch.tensor(xs)

            @staticmethod
            def arr(x):
                return x.detach().numpy()

        return L

    def execute(self, plan, sim):
        import numpy as np

        from effectful.ops.semantics import evaluate, handler
        from effectful.ops.syntax import defop
        from effectful.ops.types import Term

        L = self.lib()
        pops, psum = getattr(L, "plain_ops", L.ops), getattr(L, "plain_sum", L.sum)
        lift = getattr(L, "lift", lambda x: x)
        rng = core.derive("arrays", plan["seed"])
        dims = {n: defop(L.T, name=n) for n in SIZES}
        data: dict = {}
        for k in range(NLEAF):
            full = L.make(rng, tuple(SIZES.values()) + (VEC, VEC))
            data[k] = full
        order = list(SIZES)

        def raw(k, ns, extra):
            """Plain array over the dimensions `ns`, with `extra` positional ones."""
            x = data[k]
            key = tuple(slice(None) if n in ns else 0 for n in order) + (0,) * (2 - extra) + (slice(None),) * extra
            x = x[key]
            perm = [sorted(ns, key=order.index).index(n) for n in ns] + [len(ns) + j for j in range(extra)]
            return L.permute(x, perm) if hasattr(L, "permute") else x.permute(perm)

        index = {(n, m): L.index([rng.randrange(SIZES[n]) for _ in range(SIZES[m])]) for n in SIZES for m in SIZES}
        loc = threading.local()

        def boom(b):
            st = loc.st
            if st is None:
                return
            n = st["count"][b]
            st["count"][b] += 1
            sim.point("inside")
            for f in plan["oops"]:
                if (f["t"], f["b"], f["n"]) == (st["id"], b, n):
                    exc = EXC[f["exc"]](f"fault {b} {n}")
                    st["raised"].append(exc)
                    sim.fired[f["exc"]] += 1
                    raise exc

        def ev(e, args):
            """The computation, with named dimensions."""
            k = e[0]
            if k == "arg":
                return args[e[1]]
            if k == "T":
                return named(e, 1)
            if k == "un":
                return L.ops[e[1]](ev(e[2], args))
            if k == "bin":
                return L.ops[e[1]](ev(e[2], args), ev(e[3], args))
            if k == "boom":
                boom(e[1])
                return ev(e[2], args)
            if k == "sum":
                return L.sum(ev(e[1], args), -1)
            if k == "red":
                return L.sum(L.bind(ev(e[2], args), dims[e[1]]), 0)
            if k == "gather":
                v = ev(e[2], args)
                i = L.getitem(lift(index[e[1], e[3]]), (dims[e[3]](),))
                with handler({dims[e[1]]: lambda: i}):
                    return evaluate(v)
            raise AssertionError(e)

        def named(e, extra):
            x = lift(raw(e[1], e[2], extra))
            return L.getitem(x, tuple(dims[n]() for n in e[2])) if e[2] else x

        def ref(e, args, env):
            """The computation on the slice `env`, plain."""
            k = e[0]
            if k == "arg":
                return args[e[1]]
            if k == "T":
                return at(e, 1, env)
            if k == "un":
                return pops[e[1]](ref(e[2], args, env))
            if k == "bin":
                return pops[e[1]](ref(e[2], args, env), ref(e[3], args, env))
            if k == "boom":
                return ref(e[2], args, env)
            if k == "sum":
                return psum(ref(e[1], args, env), -1)
            if k == "red":
                tot = None
                for i in range(SIZES[e[1]]):
                    v = ref(e[2], args, {**env, e[1]: i})
                    tot = v if tot is None else tot + v
                return tot
            if k == "gather":
                return ref(e[2], args, {**env, e[1]: int(index[e[1], e[3]][env[e[3]]])})
            raise AssertionError(e)

        def at(e, extra, env):
            return raw(e[1], e[2], extra)[tuple(env.get(n, 0) for n in e[2])]

        def make():
            out = []
            for f in plan["fns"]:
                def g(*args, f=f, **kw):
                    if f["kind"] == "dict":
                        return {k: ev(f["body"][k], [v]) for k, v in args[0].items()}
                    if kw:
                        args = (*args, kw["y"])
                    return ev(f["body"][""], list(args))

                g.__name__ = "g"
                for t in f["tr"]:
                    if t not in ("jvp", "vjp"):
                        g = L.eff[t](g)
                out.append(g)
            return out

        shared = make()

        def envs(ns):
            ns = sorted(ns)
            for c in itertools.product(*[range(SIZES[n]) for n in ns]):
                yield dict(zip(ns, c))

        def check(what, got, ns, want):
            """`got`, at every assignment of the names `ns`, is want(env)."""
            if isinstance(got, Term) or hasattr(got, "shape"):
                sizes = dict(L.sizesof(got))
                have = {n for n in SIZES if dims[n] in sizes}
                if have != ns or len(sizes) != len(have):
                    raise core.Violation("names", f"{what} has the named dimensions {sorted(map(str, sizes))}, expected {sorted(ns)}")
                for n in ns:
                    if sizes[dims[n]] != SIZES[n]:
                        raise core.Violation("size", f"{what}: dimension {n} has size {sizes[dims[n]]}")
                ord_ = sorted(ns)
                x = L.bind(got, *[dims[n] for n in ord_]) if ns else got
                if isinstance(x, Term):
                    raise core.Violation("unevaluated", f"{what} is the unevaluated {str(x)[:200]}")
                for env in envs(ns):
                    w = np.asarray(L.arr(want(env)))
                    g = np.asarray(L.arr(x[tuple(env[n] for n in ord_)]))
                    if g.shape != w.shape or not np.allclose(g, w, rtol=1e-3, atol=1e-4):
                        raise core.Violation("result", f"{what} at {env} is {g.tolist()}; the plain computation gives {w.tolist()}")
            else:
                raise core.Violation("result", f"{what} is {got!r}")

        def body(t):
            st = loc.st = {"id": t["id"], "count": collections.Counter(), "raised": []}
            fns = make() if plan["own"] else shared

            def attempt(what, fn):
                for _ in range(12):
                    n = len(st["raised"])
                    try:
                        v = fn()
                    except core.Violation:
                        raise
                    except BaseException as e:  # noqa: BLE001
                        if not any(e is x for x in st["raised"][n:]):
                            if isinstance(e, core.HarnessError) or type(e).__name__ == "SimAbort":
                                raise
                            import traceback

                            raise core.Violation("error", f"{what} fails with {type(e).__name__}: {str(e)[:300]} instead of {st['raised'][n:]}\n" + "".join(traceback.format_tb(e.__traceback__))[-1500:]) from None
                        sim.event(st["id"], what, "failed", type(e).__name__)
                        sim.probe("failed")
                        continue
                    if len(st["raised"]) > n:
                        raise core.Violation("swallowed", f"{what} succeeds although {st['raised'][n:]} was raised")
                    sim.event(st["id"], what, "ok")
                    return v
                raise core.Violation("stuck", f"{what} keeps failing")

            for i, s in enumerate(t["steps"]):
                what = f"step {i}"
                if s["k"] == "expr":
                    got = attempt(what, lambda: ev(s["e"], []))
                    check(what, got, names(s["e"]), lambda env: ref(s["e"], [], env))
                    sim.probe("expr")
                elif s["f"] < len(fns):
                    self.call(plan, sim, L, fns, s, st, attempt, check, ev, ref, named, at, dims, names, what)
                    sim.probe("tr_" + "_".join(plan["fns"][s["f"]]["tr"] or ["plain"]))
                sim.probe("nontrivial")
            return st

        multi = len(plan["threads"]) > 1
        s = core.Scheduler(sim, plan["policy"], opcodes=plan["opcodes"], trace=multi)
        sim.last_sched = s
        for t in plan["threads"]:
            s.spawn(f"T{t['id']}", lambda t=t: body(t), tid=t["id"])
        for name, (kind, v) in s.run(timeout=80).items():
            if kind == "err":
                raise v

    def call(self, plan, sim, L, fns, s, st, attempt, check, ev, ref, named, at, dims, names, what):
        f = plan["fns"][s["f"]]
        g, tr, bodies = fns[s["f"]], f["tr"], f["body"]
        desc = f"{what}: {'·'.join(reversed(tr)) or 'plain'} of a {f['kind']} function"
        extra = s.get("extra", 1 + sum(t == "vmap" for t in tr))
        ns = [set(a[2]) for a in s["args"]]
        used = set().union(*ns)
        if f["kind"] == "dict":
            args = {k: named(a, extra) for k, a in zip(s["keys"], s["args"])}
            got = attempt(desc, lambda: g(args))
            if not isinstance(got, dict) or set(got) != set(args):
                raise core.Violation("structure", f"{desc} called with {sorted(args)} returned {got!r}")
            for k, a in zip(s["keys"], s["args"]):
                def want(env, k=k, a=a):
                    h = lambda x: ref(bodies[k], [x], env)  # noqa: E731
                    for t in tr:
                        h = L.plain[t](h)
                    return h(at(a, extra, env))

                # one vectorised call: every result has the names of all arguments
                nn = (set(a[2]) if not tr else used) | names(bodies[k])
                check(f"{desc}[{k}]", got[k], nn, want)
            return
        args = [named(a, extra) for a in s["args"]]
        closed = names(bodies[""])
        allns = used | closed

        def plain(env):
            h = lambda *x: ref(bodies[""], list(x), env)  # noqa: E731
            for t in tr:
                if t not in ("jvp", "vjp"):
                    h = L.plain[t](h)
            return h

        sl = lambda env: [at(a, extra, env) for a in s["args"]]  # noqa: E731
        rng = core.derive(s["perm"])
        if tr == ["jvp"]:
            tans = [["T", (a[1] + 1) % NLEAF, rng.sample(a[2], len(a[2]))] for a in s["args"]]
            tan = [named(a, 1) for a in tans]
            v, d = attempt(desc, lambda: L.eff["jvp"](g, tuple(args), tuple(tan)))
            check(desc + " (value)", v, allns, lambda env: plain(env)(*sl(env)))
            check(desc + " (tangent)", d, allns, lambda env: L.plain["jvp"](plain(env), tuple(sl(env)), tuple(at(a, 1, env) for a in tans))[1])
        elif tr == ["vjp"]:
            v, pull = attempt(desc, lambda: L.eff["vjp"](g, *args))
            dep = allns if f["n"] == 1 else result_names(bodies[""], ns)
            check(desc + " (value)", v, dep, lambda env: plain(env)(*sl(env)))
            for j in range(2):
                ct = ["T", rng.randrange(NLEAF), rng.sample(sorted(dep), len(dep))]
                grads = attempt(desc + " (pull)", lambda: pull(named(ct, 1)))
                if len(grads) != len(args):
                    raise core.Violation("structure", f"{desc} gives {len(grads)} gradients for {len(args)} arguments")
                for i, a in enumerate(s["args"]):
                    def want(env, i=i, a=a):
                        tot = None
                        rest = dep - set(a[2])
                        for c in itertools.product(*[range(SIZES[n]) for n in sorted(rest)]):
                            e2 = {**env, **dict(zip(sorted(rest), c))}
                            full = {**{n: 0 for n in SIZES}, **e2}
                            gr = L.plain["vjp"](plain(full), *[at(x, 1, full) for x in s["args"]])[1](at(ct, 1, full))[i]
                            tot = gr if tot is None else tot + gr
                        return tot

                    if set(a[2]) <= dep:
                        check(f"{desc} (gradient {i})", grads[i], set(a[2]), want)
        else:
            if s["kw"] and len(args) == 2 and tr and set(tr) == {"grad"}:
                got = attempt(desc + " with a keyword", lambda: g(args[0], y=args[1]))
            else:
                got = attempt(desc, lambda: g(*args))
            nn = allns if tr else result_names(bodies[""], ns)
            check(desc, got, nn, lambda env: plain({**{n: 0 for n in SIZES}, **env})(*sl({**{n: 0 for n in SIZES}, **env})))


class ArraysJax(Arrays):
    """The same with jax and jit."""

    name = "arrays_jax"
    backend = "jax"

    def setup(self):
        import os

        # compile quickly; one thread, as the process is forked for every run
        os.environ.setdefault("XLA_FLAGS", "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true "
                                           "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
        os.environ.setdefault("JAX_PLATFORMS", "cpu")
        import jax  # noqa: F401

        import effectful.handlers.jax  # noqa: F401
        import effectful.handlers.jax.numpy  # noqa: F401
        import effectful.internals.runtime  # noqa: F401
        import effectful.ops.semantics  # noqa: F401
        import jax._src.pjit

        core.NOPREEMPT.update({jax._src.pjit.__file__})

    def transforms(self, trs):
        return [["jit"], ["jit"], ["jit"], []]

    def generate(self, rng, prop, tier):
        plan = super().generate(rng, prop, tier)
        r = rng
        for f in plan["fns"]:
            if f["tr"] and f["kind"] == "vec" and r.random() < 0.7:
                # what it returns depends on the structure it is called with
                b = f["body"][""]
                f.update(kind="dict", n=1, body={k: one(b) if k == "p" else ["bin", "add", ["arg", 0], ["T", r.randrange(NLEAF), r.sample("abcd", r.choice([0, 1, 2]))]] for k in "pqr"})
        for t in plan["threads"]:
            for s in t["steps"]:
                if s["k"] != "call":
                    continue
                f = plan["fns"][s["f"]]
                s["kw"] = 0
                if f["kind"] == "dict" and "keys" not in s:
                    s["keys"] = r.sample("pqr", r.choice([1, 1, 2, 3]))
                    s["args"] = [["T", r.randrange(NLEAF), []] for _ in s["keys"]]
                if f["tr"]:
                    s["extra"] = r.choice([1, 1, 2])
                    for a in s["args"]:
                        a[2] = []
        plan["policy"] = core.gen_policy(r, 600)
        return plan

    def lib(self):
        import jax
        import jax.numpy as jnp
        import numpy as np

        import effectful.handlers.jax as E
        import effectful.handlers.jax.numpy as enp

        class L:
            T = jax.Array
            ops = {"sin": enp.sin, "neg": enp.negative, "tanh": enp.tanh, "square": enp.square,
                   "add": enp.add, "sub": enp.subtract, "mul": enp.multiply}
            plain_ops = {"sin": np.sin, "neg": np.negative, "tanh": np.tanh, "square": np.square,
                         "add": np.add, "sub": np.subtract, "mul": np.multiply}
            sum = staticmethod(lambda x, d: enp.sum(x, axis=d))
            plain_sum = staticmethod(lambda x, d: np.sum(x, axis=d))
            sizesof = staticmethod(E.sizesof)
            bind = staticmethod(lambda v, *n: E.bind_dims(v, *n))
            getitem = staticmethod(lambda t, k: E.jax_getitem(t, k))
            lift = staticmethod(jnp.asarray)
            eff = {"jit": E.jit}
            plain = {"jit": lambda f: f}

            @staticmethod
            def make(rng, shape):
                n = 1
                for s in shape:
                    n *= s
                return np.array([rng.uniform(-1, 1) for _ in range(n)], dtype=np.float32).reshape(shape)

            @staticmethod
            def permute(x, perm):
                return np.transpose(x, perm)

            @staticmethod
            def index(xs):
                return np.array(xs, dtype=np.int32)

            @staticmethod
            def arr(x):
                return np.asarray(x)

        return L


def one(e):
    """`e` with every argument replaced by the first."""
    if not isinstance(e, list):
        return e
    return ["arg", 0] if e and e[0] == "arg" else [one(x) for x in e]


def result_names(e, ns):
    """Names of the value of `e` called directly with arguments of names `ns`."""
    if e[0] == "arg":
        return set(ns[e[1]])
    if e[0] == "T":
        return set(e[2])
    if e[0] == "red":
        return result_names(e[2], ns) - {e[1]}
    if e[0] == "gather":
        return (result_names(e[2], ns) - {e[1]}) | {e[3]}
    return set().union(*[result_names(x, ns) for x in e if isinstance(x, list) and x and isinstance(x[0], str)])
