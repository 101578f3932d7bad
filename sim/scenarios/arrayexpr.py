"""T01: expressions over arrays with named dimensions.

Random well-shaped expressions (indexing of every kind next to named dimensions, array
functions with one or several results, binding and renaming of names, substitution), built
directly or from free variables that are substituted later, by several threads that share
the named arrays. Every result is compared with the plain library at every assignment of
its names."""

from __future__ import annotations

import itertools

from .. import core
from ..base import Scenario
from .arrays import SIZES, ArraysJax

SLICES = [(1, None, None), (None, 2, None), (-2, None, None), (None, None, 2), (0, -1, None), (1, 3, None), (None, None, None)]
UN = ["sin", "neg", "abs", "tanh", "square", "opneg", "opabs"]
BIN = ["add", "sub", "mul", "maximum", "op+", "op-", "op*"]


class Gen:
    def __init__(self, r, api, pool, jax):
        self.r, self.api, self.pool, self.jax = r, api, pool, jax
        self.free = 0

    # ---- keys

    def shape_of(self, dims, key):
        """Positional shape of zeros(dims)[key], names as integers."""
        return tuple(self.api.zeros(tuple(dims))[self.api.plain_key(key, dict.fromkeys(SIZES, 0))].shape)

    def key(self, dims=None, pool=None):
        """A key for an array with positional shape `dims`, or with dimensions it chooses."""
        r = self.r
        pool = self.pool if pool is None else pool
        free = dims is None
        out, key = [], []
        n = r.choice([1, 2, 2, 3, 3, 4]) if free else r.randrange(1, len(dims) + 1) if dims else 0
        adv = None
        kinds = ["n", "n", "n", ":", ":", "s", "s", "i", "N", "l", "t", "g", "E"]
        pos = 0
        while len([k for k in key if k[0] not in "NE"]) < n and len(key) < 7:
            k = r.choice(kinds)
            d = r.choice([2, 3, 3, 4]) if free else dims[pos]
            if k == "N":
                if r.random() < 0.5:
                    key.append(["N"])
                continue
            if k == "E":
                if ["E"] in key or (not free):
                    continue
                key.append(["E"])
                out += [r.choice([2, 3]) for _ in range(r.choice([0, 1]))]
                continue
            if k == "n":
                cands = [x for x in pool if free or SIZES[x] == d]
                if not cands:
                    continue
                x = r.choice(cands)
                d = SIZES[x]
                key.append(["n", x])
            elif k == ":":
                key.append([":"])
            elif k == "s":
                a, b, c = r.choice(SLICES)
                if len(range(*slice(a, b, c).indices(d))) == 0:
                    continue
                key.append(["s", a, b, c])
            elif k == "i":
                key.append(["i", r.randrange(-d, d)])
            elif k in "lt":
                if adv is not None and r.random() < 0.6:
                    continue
                adv = adv or r.choice([2, 3])
                key.append([k, [r.randrange(d) for _ in range(adv)]])
            elif k == "g":
                if not pool:
                    continue
                x = r.choice(pool)
                key.append(["g", x, [r.randrange(d) for _ in range(SIZES[x])]])
            out.append(d)
            pos += 1
        if free and ["E"] not in key:
            out += [r.choice([2, 3]) for _ in range(r.choice([0, 0, 1]))]
        return (out if free else list(dims)), key

    def mixed(self, key):
        """Lists and arrays together with integers or names around slices: libraries differ
        in where the dimensions go, also between one slice and all of them."""
        return False

    # ---- trees: (tree, shape, names)

    def leaf(self):
        for _ in range(20):
            dims, key = self.key()
            try:
                sh = self.shape_of(dims, key)
            except Exception:  # noqa: BLE001
                continue
            if len(sh) <= 3 and all(sh):
                return ["L", self.r.getrandbits(20), dims, key], sh, keynames(key)
        return ["L", 1, [3], [[":"]]], (3,), set()

    def leaf_of(self, shape):
        r = self.r
        dims, key = [], []
        ns = r.sample(self.pool, r.randrange(0, min(2, len(self.pool)) + 1))
        slots = list(shape) + ns
        order = list(range(len(shape))) + [None] * len(ns)
        # names anywhere, positional dimensions in order
        pos = sorted(r.sample(range(len(slots)), len(ns))) if ns else []
        ns, sh = list(ns), list(shape)
        for i in range(len(order)):
            if i in pos:
                x = ns.pop()
                dims.append(SIZES[x])
                key.append(["n", x])
            else:
                dims.append(sh.pop(0))
                key.append([":"])
        if not key:
            dims, key = [2], [["i", 1]]
        return ["L", r.getrandbits(20), dims, key], tuple(shape), keynames(key)

    def tree(self, depth):
        r = self.r
        if depth <= 0:
            return self.leaf()
        x, sh, ns = self.tree(depth - 1)
        for _ in range(10):
            t = self.step(x, sh, ns)
            if t is not None:
                tree, sh2, ns2 = t
                if len(sh2) <= 4 and all(sh2) and len(ns2) <= 3:
                    return tree, tuple(sh2), ns2
        return x, sh, ns

    def step(self, x, sh, ns):
        r = self.r
        nd = len(sh)
        k = r.choice(["un", "bin", "bin", "bcast", "const", "red", "red", "perm", "reshape", "mm", "einsum", "stack", "cat",
                      "where", "split", "max", "sort", "bind", "bind", "bind2", "unbind", "unbind", "idx", "idx", "idx", "sub", "sub",
                      "cumsum", "softmax", "flip", "unsq", "expand", *(["atset"] if self.jax else [])])
        d = r.randrange(nd) if nd else 0
        dd = r.choice([d, d - nd])
        if k == "un":
            return ["un", r.choice(UN), x], sh, ns
        if k == "bin":
            y, _, m = self.leaf_of(sh)
            a, b = (x, y) if r.random() < 0.5 else (y, x)
            return ["bin", r.choice(BIN), a, b], sh, ns | m
        if k == "bcast":
            s2 = tuple(r.choice([1, q]) for q in sh)[r.randrange(nd + 1):]
            y, _, m = self.leaf_of(s2)
            a, b = (x, y) if r.random() < 0.5 else (y, x)
            return ["bin", r.choice(BIN), a, b], sh, ns | m
        if k == "const":
            return ["const", r.choice(["+", "r-", "-", "*", "/", "r/"]), r.choice([2, 0.5, 3]), x], sh, ns
        if k == "sub" and ns:
            n = r.choice(sorted(ns))
            if r.random() < 0.4:
                return ["sub", n, ["i", r.randrange(SIZES[n])], x], sh, ns - {n}
            m = r.choice(self.pool)
            if m in ns:
                return None
            return ["sub", n, ["g", m, [r.randrange(SIZES[n]) for _ in range(SIZES[m])]], x], sh, (ns - {n}) | {m}
        if k == "bind" and ns:
            n = r.choice(sorted(ns))
            return ["bind", [n], x], (SIZES[n], *sh), ns - {n}
        if k == "bind2" and len(ns) > 1:
            p = r.sample(sorted(ns), 2)
            return ["bind", p, x], (*[SIZES[n] for n in p], *sh), ns - set(p)
        if k == "reshape":
            n = 1
            for q in sh:
                n *= q
            opts = [(n,), (1, n), (n, 1), sh[::-1]] + [(a, n // a) for a in (2, 3) if n % a == 0]
            s2 = r.choice(opts)
            return ["reshape", list(s2), x], s2, ns
        if k == "unsq":
            p = r.randrange(nd + 1)
            return ["unsq", p, x], (*sh[:p], 1, *sh[p:]), ns
        if k == "stack":
            y, _, m = self.leaf_of(sh)
            p = r.randrange(nd + 1)
            return ["stack", p, x, y], (*sh[:p], 2, *sh[p:]), ns | m
        if k == "where":
            y, _, m = self.leaf_of(sh)
            z, _, q = self.leaf_of(sh)
            return ["where", x, y, z], sh, ns | m | q
        if not nd:
            return None
        rest = (*sh[:d], *sh[d + 1:])
        if k == "red":
            f = r.choice(["sum", "mean", "amax", "amin", "prod"])
            keep = r.random() < 0.3
            return ["red", f, dd, keep, x], ((*sh[:d], 1, *sh[d + 1:]) if keep else rest), ns
        if k == "perm":
            p = r.sample(range(nd), nd)
            return ["perm", p, x], tuple(sh[i] for i in p), ns
        if k == "mm" and nd >= 2:
            c = r.choice([2, 3])
            y, _, m = self.leaf_of((sh[-1], c))
            return ["mm", x, y], (*sh[:-1], c), ns | m
        if k == "einsum" and nd == 2:
            y, _, m = self.leaf_of((sh[1], 2))
            spec, out = r.choice([("ij,jk->ik", (sh[0], 2)), ("ij,jk->ki", (2, sh[0])), ("ij,jk->i", (sh[0],))])
            return ["einsum", spec, x, y], out, ns | m
        if k == "cat":
            y, _, m = self.leaf_of((*sh[:d], r.choice([1, 2]), *sh[d + 1:]))
            extra = y_dim(y, d)
            return ["cat", dd, x, y], (*sh[:d], sh[d] + extra, *sh[d + 1:]), ns | m
        if k == "split" and sh[d] >= 2:
            i = r.choice([0, 1])
            return ["split", d, i, x], (*sh[:d], 1 if i == 0 else sh[d] - 1, *sh[d + 1:]), ns
        if k == "max":
            return ["max", dd, r.choice([0, 1]), x], rest, ns
        if k == "sort":
            return ["sort", dd, x], sh, ns
        if k == "cumsum":
            return ["cumsum", dd, x], sh, ns
        if k == "softmax":
            return ["softmax", dd, x], ((*sh[:d], 1, *sh[d + 1:]) if self.jax else sh), ns
        if k == "flip":
            return ["flip", d, x], sh, ns
        if k == "atset":
            key = [r.choice([["i", r.randrange(q)], [":"], ["s", *r.choice(SLICES)]]) for q in sh][:r.randrange(1, nd + 1)]
            return ["atset", key, r.choice([2.5, -3.0]), x], sh, ns
        if k == "expand":
            e = r.choice([2, 3])
            return ["expand", [e, *sh], x], (e, *sh), ns
        if k == "unbind":
            c = [n for n in self.pool if SIZES[n] == sh[0] and n not in ns]
            if not c:
                return None
            n = r.choice(c)
            return ["unbind", [n], x], sh[1:], ns | {n}
        if k == "idx":
            _, key = self.key(dims=sh, pool=[p for p in self.pool if p not in ns or r.random() < 0.3])
            try:
                s2 = self.shape_of(sh, key)
            except Exception:  # noqa: BLE001
                return None
            return ["idx", key, x], s2, ns | keynames(key)
        return None


KINDS = {"L", "idx", "un", "bin", "const", "red", "perm", "reshape", "unsq", "expand", "mm", "einsum", "stack", "cat", "where",
         "split", "max", "sort", "cumsum", "softmax", "flip", "bind", "unbind", "sub", "atset"}


def child(x):
    return isinstance(x, list) and bool(x) and isinstance(x[0], str) and x[0] in KINDS


def keynames(key):
    return {k[1] for k in key if k[0] in ("n", "g")}


def y_dim(y, d):
    pos = [s for s, k in zip(y[2], y[3]) if k[0] == ":"]
    return pos[d]


def names(e):
    k = e[0]
    if k == "L":
        return keynames(e[3])
    if k == "idx":
        return names(e[2]) | keynames(e[1])
    if k == "bind":
        return names(e[2]) - set(e[1])
    if k == "unbind":
        return names(e[2]) | set(e[1])
    if k == "sub":
        n = names(e[3])
        return (n - {e[1]}) | ({e[2][1]} if e[2][0] == "g" else set())
    return set().union(*[names(x) for x in e[1:] if child(x)])


class TorchApi:
    termmeth = False  # terms of unknown value have no methods

    def __init__(self):
        import torch

        import effectful.handlers.torch as E

        t = self.t = torch
        self.E, self.T = E, torch.Tensor
        self.zeros = t.zeros
        self.sizesof = E.sizesof
        self.bind = lambda x, *n: E.bind_dims(x, *n)
        self.unbind = lambda x, *n: E.unbind_dims(x, *n)
        self.getitem = lambda x, k: x[k]
        self.stack0 = t.stack
        self.plain = self.eff = self.fns(t)
        self.data = lambda xs, shape: t.tensor(xs).reshape(shape)
        self.itensor = lambda xs: t.tensor(xs)
        self.arr = lambda x: x.detach().numpy()
        self.meth = {**self.eff, "sum": lambda x, d, k: x.sum(d, keepdim=k), "mean": lambda x, d, k: x.mean(d, keepdim=k),
                     "amax": lambda x, d, k: x.amax(d, keepdim=k), "prod": lambda x, d, k: x.prod(d, keepdim=k),
                     "perm": lambda x, p: x.permute(*p), "reshape": lambda x, s: x.reshape(tuple(s)), "mm": lambda x, y: x @ y,
                     "max": lambda x, d, w: (x.max(d).indices if w else x.max(d).values) * 1.0, "sort": lambda x, d: x.sort(dim=d).values,
                     "cumsum": lambda x, d: x.cumsum(d), "softmax": lambda x, d: x.softmax(d), "unsq": lambda x, d: x.unsqueeze(d),
                     "expand": lambda x, s: x.expand(*s), "sin": lambda x: x.sin(), "square": lambda x: x ** 2, "abs": lambda x: x.abs(),
                     "where": lambda c, x, y: t.where(c > 0.0, x, y), "split": lambda x, d, i, n: x.split([1, n - 1], dim=d)[i]}

    def fns(self, t):
        return {
            "sin": t.sin, "neg": t.neg, "abs": t.abs, "tanh": t.tanh, "square": t.square,
            "add": t.add, "sub": t.sub, "mul": t.mul, "maximum": t.maximum,
            "sum": lambda x, d, k: t.sum(x, d, keepdim=k), "mean": lambda x, d, k: t.mean(x, d, keepdim=k),
            "amax": lambda x, d, k: t.amax(x, d, keepdim=k), "amin": lambda x, d, k: t.amin(x, d, keepdim=k),
            "prod": lambda x, d, k: t.prod(x, d, keepdim=k),
            "perm": lambda x, p: t.permute(x, tuple(p)), "reshape": lambda x, s: t.reshape(x, tuple(s)),
            "mm": t.matmul, "einsum": t.einsum, "stack": lambda xs, d: t.stack(xs, d), "cat": lambda xs, d: t.cat(xs, d),
            "where": lambda c, x, y: t.where(t.gt(c, 0.0), x, y), "split": lambda x, d, i, n: t.split(x, [1, n - 1], d)[i],
            "max": lambda x, d, w: t.max(x, d)[w] * 1.0, "sort": lambda x, d: t.sort(x, d)[0], "cumsum": lambda x, d: t.cumsum(x, d),
            "softmax": lambda x, d: t.softmax(x, d), "flip": lambda x, d: t.flip(x, (d,)),
            "unsq": lambda x, d: t.unsqueeze(x, d), "expand": lambda x, s: t.broadcast_to(x, tuple(s)),
        }

    def lst(self, xs):
        return list(xs)

    def plain_key(self, key, env):
        out = []
        for k in key:
            out.append({"n": lambda: env[k[1]], ":": lambda: slice(None), "s": lambda: slice(*k[1:]), "i": lambda: k[1],
                        "N": lambda: None, "E": lambda: Ellipsis, "l": lambda: self.plst(k[1]), "t": lambda: self.pitensor(k[1]),
                        "g": lambda: k[2][env[k[1]]]}[k[0]]())
        return tuple(out)

    def plst(self, xs):
        return list(xs)

    def pitensor(self, xs):
        return self.itensor(xs)

    def pdata(self, xs, shape):
        return self.data(xs, shape)


class JaxApi(TorchApi):
    termmeth = True

    def __init__(self):
        import jax
        import jax.numpy as jnp
        import numpy as np

        import effectful.handlers.jax as E
        import effectful.handlers.jax.numpy as enp
        import effectful.handlers.jax.scipy.special as esp

        self.np, self.E, self.T = np, E, jax.Array
        self.zeros = np.zeros
        self.sizesof = E.sizesof
        self.bind = lambda x, *n: E.bind_dims(x, *n)
        self.unbind = lambda x, *n: E.unbind_dims(x, *n)
        self.getitem = lambda x, k: E.jax_getitem(x, k)
        self.stack0 = np.stack
        self.eff = self.jfns(enp, lambda x, d: esp.logsumexp(x, axis=d, keepdims=True))

        def softmax(x, d):
            return np.log(np.sum(np.exp(x), axis=d, keepdims=True))

        self.plain = self.jfns(np, softmax)
        self.data = lambda xs, shape: jnp.asarray(np.array(xs, dtype=np.float32).reshape(shape))
        self.itensor = lambda xs: jnp.asarray(np.array(xs, dtype=np.int32))
        self.arr = np.asarray
        self.meth = {**self.eff, "sum": lambda x, d, k: x.sum(axis=d, keepdims=k), "mean": lambda x, d, k: x.mean(axis=d, keepdims=k),
                     "amax": lambda x, d, k: x.max(axis=d, keepdims=k), "amin": lambda x, d, k: x.min(axis=d, keepdims=k),
                     "prod": lambda x, d, k: x.prod(axis=d, keepdims=k), "perm": lambda x, p: x.transpose(tuple(p)),
                     "reshape": lambda x, s: x.reshape(*s), "mm": lambda x, y: x @ y, "sort": lambda x, d: x.sort(axis=d),
                     "max": lambda x, d, w: x.argmax(axis=d) * 1.0 if w else x.max(axis=d), "cumsum": lambda x, d: x.cumsum(axis=d),
                     "square": lambda x: x ** 2, "abs": abs, "where": lambda c, x, y: enp.where(c > 0.0, x, y)}

        def npset(x, key, c):
            x = np.array(x)
            x[key] = c
            return x

        self.plain["atset"] = npset
        self.eff["atset"] = self.meth["atset"] = lambda x, key, c: x.at[key].set(c)

    def jfns(self, t, softmax):
        return {
            "sin": t.sin, "neg": t.negative, "abs": t.abs, "tanh": t.tanh, "square": t.square,
            "add": t.add, "sub": t.subtract, "mul": t.multiply, "maximum": t.maximum,
            "sum": lambda x, d, k: t.sum(x, axis=d, keepdims=k), "mean": lambda x, d, k: t.mean(x, axis=d, keepdims=k),
            "amax": lambda x, d, k: t.max(x, axis=d, keepdims=k), "amin": lambda x, d, k: t.min(x, axis=d, keepdims=k),
            "prod": lambda x, d, k: t.prod(x, axis=d, keepdims=k),
            "perm": lambda x, p: t.transpose(x, tuple(p)), "reshape": lambda x, s: t.reshape(x, tuple(s)),
            "mm": t.matmul, "einsum": t.einsum, "stack": lambda xs, d: t.stack(xs, d), "cat": lambda xs, d: t.concatenate(xs, d),
            "where": lambda c, x, y: t.where(t.greater(c, 0.0), x, y), "split": lambda x, d, i, n: t.split(x, [1], d)[i],
            "max": lambda x, d, w: t.argmax(x, axis=d) * 1.0 if w else t.max(x, axis=d), "sort": lambda x, d: t.sort(x, axis=d),
            "cumsum": lambda x, d: t.cumsum(x, axis=d), "softmax": softmax, "flip": lambda x, d: t.flip(x, d),
            "unsq": lambda x, d: t.expand_dims(x, d), "expand": lambda x, s: t.broadcast_to(x, tuple(s)),
        }

    def lst(self, xs):
        return self.itensor(xs)

    def pitensor(self, xs):
        return self.np.array(xs)

    def pdata(self, xs, shape):
        return self.np.array(xs, dtype=self.np.float32).reshape(shape)


# what a term of unknown value does not offer
NOTERM = {"max", "sort", "split", "bind", "unbind"}


class ArrayExpr(Scenario):
    name = "arrayexpr"
    Api = TorchApi
    points = 4000

    def setup(self):
        import torch

        torch.set_num_threads(1)
        import effectful.handlers.torch  # noqa: F401
        import effectful.internals.runtime  # noqa: F401
        from effectful.ops.syntax import defop

        a = defop(torch.Tensor, name="a")
        core.warm(lambda: torch.sin(torch.ones(2, 3)[a()]))
        self.api = self.Api()

    def generate(self, rng, prop, tier):
        r = rng
        pool = r.sample("abcd", r.choice([1, 2, 2, 3]))
        g = Gen(r, self.api, pool, self.name.endswith("jax"))
        trees = [g.tree(r.choice([1, 2, 3, 4, 5]))[0] for _ in range(r.choice([2, 3, 4]))]
        threads = []
        for t in range(r.choice([1, 1, 2, 2, 3])):
            steps = []
            for _ in range(r.choice([1, 2, 3])):
                e = r.randrange(len(trees))
                mode = r.choice(["now", "now", "defer"])
                if any(o in NOTERM for o in ops_in(trees[e])):
                    mode = "now"
                steps.append({"e": e, "mode": mode, "m": r.random() < 0.4, "w": [r.random() < 0.5 for _ in range(12)]})
            threads.append({"id": t, "steps": steps})
        return {"trees": trees, "threads": threads, "faults": [], "policy": core.gen_policy(r, self.points), "opcodes": False}

    def execute(self, plan, sim):
        import operator

        import numpy as np

        from effectful.ops.semantics import evaluate, handler
        from effectful.ops.syntax import defop
        from effectful.ops.types import Term

        A = self.api
        dims = {n: defop(A.T, name=n) for n in SIZES}

        def values(e):
            rng = core.derive("arrayexpr", e[1])
            n = 1
            for s in e[2]:
                n *= s
            # distinct values, away from 0
            xs = [(-1) ** rng.randrange(2) * (0.2 + (i + rng.random()) / n) for i in range(n)]
            rng.shuffle(xs)
            return xs

        base = {}
        for t in plan["trees"]:
            for e in leaves(t):
                base[e[1], tuple(e[2])] = A.data(values(e), tuple(e[2]))

        def key(k):
            out = []
            for x in k:
                c = x[0]
                if c == "n":
                    out.append(dims[x[1]]())
                elif c == "g":
                    out.append(A.getitem(A.itensor(x[2]), (dims[x[1]](),)))
                elif c == "l":
                    out.append(A.lst(x[1]))
                elif c == "t":
                    out.append(A.itensor(x[1]))
                else:
                    out.append({":": slice(None), "s": slice(*x[1:4]) if c == "s" else None, "i": x[1] if c == "i" else None,
                                "N": None, "E": Ellipsis}[c])
            return tuple(out)

        OPS = {"op+": operator.add, "op-": operator.sub, "op*": operator.mul, "opneg": operator.neg, "opabs": operator.abs}
        CONST = {"+": lambda x, c: x + c, "-": lambda x, c: x - c, "r-": lambda x, c: c - x, "*": lambda x, c: c * x,
                 "/": lambda x, c: x / c, "r/": lambda x, c: c / x}

        def apply(F, e, rec):
            k = e[0]
            if k == "un":
                return (OPS.get(e[1]) or F[e[1]])(rec(e[2]))
            if k == "bin":
                return (OPS.get(e[1]) or F[e[1]])(rec(e[2]), rec(e[3]))
            if k == "const":
                return CONST[e[1]](rec(e[3]), e[2])
            if k == "red":
                return F[e[1]](rec(e[4]), e[2], e[3])
            if k in ("perm", "reshape", "unsq", "expand"):
                return F[k](rec(e[2]), e[1])
            if k == "mm":
                return F[k](rec(e[1]), rec(e[2]))
            if k == "einsum":
                return F[k](e[1], rec(e[2]), rec(e[3]))
            if k in ("stack", "cat"):
                return F[k]([rec(e[2]), rec(e[3])], e[1])
            if k == "where":
                return F[k](rec(e[1]), rec(e[2]), rec(e[3]))
            if k == "split":
                x = rec(e[3])
                return F[k](x, e[1], e[2], x.shape[e[1]])
            if k == "max":
                return F[k](rec(e[3]), e[1], e[2])
            if k in ("sort", "cumsum", "softmax", "flip"):
                return F[k](rec(e[2]), e[1])
            if k == "atset":
                return F[k](rec(e[3]), A.plain_key(e[1], {}), e[2])
            raise core.HarnessError(f"unknown {e!r}")

        def build(e, leaf, F):
            k = e[0]
            rec = lambda x: build(x, leaf, F)  # noqa: E731
            if k == "L":
                return A.getitem(leaf(e), key(e[3]))
            if k == "idx":
                return A.getitem(rec(e[2]), key(e[1]))
            if k == "bind":
                return A.bind(rec(e[2]), *[dims[n] for n in e[1]])
            if k == "unbind":
                return A.unbind(rec(e[2]), *[dims[n] for n in e[1]])
            if k == "sub":
                x = rec(e[3])
                with handler({dims[e[1]]: lambda v=index(e[2]): v}):
                    return evaluate(x)
            return apply(F, e, rec)

        def index(i):
            if i[0] == "i":
                return A.itensor(i[1])
            return A.getitem(A.itensor(i[2]), (dims[i[1]](),))

        def ref(e, env):
            k = e[0]
            rec = lambda x: ref(x, env)  # noqa: E731
            if k == "L":
                return A.pdata(values(e), tuple(e[2]))[A.plain_key(e[3], env)]
            if k == "idx":
                return rec(e[2])[A.plain_key(e[1], env)]
            if k == "bind":
                n, *rest = e[1]
                sub = ["bind", rest, e[2]] if rest else e[2]
                return A.stack0([ref(sub, {**env, n: i}) for i in range(SIZES[n])])
            if k == "unbind":
                return rec(e[2])[env[e[1][0]]]
            if k == "sub":
                i = e[2]
                return ref(e[3], {**env, e[1]: i[1] if i[0] == "i" else i[2][env[i[1]]]})
            return apply(A.plain, e, rec)

        def envs(ns):
            ns = sorted(ns)
            for c in itertools.product(*[range(SIZES[n]) for n in ns]):
                yield dict(zip(ns, c))

        def check(what, got, e):
            ns = names(e)
            if not (isinstance(got, Term) or hasattr(got, "shape")):
                raise core.Violation("result", f"{what} is {got!r}")
            sizes = dict(A.sizesof(got))
            have = {n for n in SIZES if dims[n] in sizes}
            if have != ns or len(sizes) != len(have):
                raise core.Violation("names", f"{what} has the named dimensions {sorted(map(str, sizes))}, expected {sorted(ns)}")
            for n in ns:
                if sizes[dims[n]] != SIZES[n]:
                    raise core.Violation("size", f"{what}: dimension {n} has size {sizes[dims[n]]}")
            ord_ = sorted(ns)
            x = A.bind(got, *[dims[n] for n in ord_]) if ns else got
            if isinstance(x, Term):
                raise core.Violation("unevaluated", f"{what} is the unevaluated {str(x)[:200]}")
            shape = None
            for env in envs(ns):
                w = np.asarray(A.arr(ref(e, env)))
                y = np.asarray(A.arr(x[tuple(env[n] for n in ord_)] if ord_ else x))
                if y.shape != w.shape or not np.allclose(y, w, rtol=1e-3, atol=1e-4, equal_nan=True):
                    raise core.Violation("result", f"{what} at {env} is {y.tolist()} (shape {y.shape}); the plain computation gives {w.tolist()} (shape {w.shape})")
                shape = w.shape
            if isinstance(got, Term) and tuple(got.shape) != shape:
                raise core.Violation("shape", f"{what} says its shape is {tuple(got.shape)}; its slices have {shape}")

        def body(t):
            for i, s in enumerate(t["steps"]):
                if s["e"] >= len(plan["trees"]):
                    continue
                e = plan["trees"][s["e"]]
                what = f"step {i} ({s['mode']}): {e}"
                try:
                    if s["mode"] == "now":
                        got = build(e, lambda e: base[e[1], tuple(e[2])], A.meth if s["m"] else A.eff)
                    else:
                        free, subst = {}, {}
                        w = iter(s["w"] * 20)

                        def leaf(e):
                            k = e[1], tuple(e[2])
                            if k not in free and next(w):
                                free[k] = defop(A.T, name=f"v{len(free)}")
                                subst[free[k]] = lambda k=k: base[k]
                            return free[k]() if k in free else base[k]

                        term = build(e, leaf, A.meth if s["m"] and A.termmeth else A.eff)
                        sim.probe("deferred" if isinstance(term, Term) and free else "direct")
                        with handler(subst):
                            got = evaluate(term)
                    check(what, got, e)
                except (core.Violation, core.HarnessError):
                    raise
                except Exception as x:  # noqa: BLE001
                    import traceback

                    raise core.Violation("error", f"{what} fails with {type(x).__name__}: {str(x)[:300]}\n" + "".join(traceback.format_tb(x.__traceback__))[-1500:]) from None
                sim.event(t["id"], i, s["mode"], "ok")
                sim.probe("nontrivial")
                for o in ops_in(e):
                    sim.probe("op_" + o)
            return None

        multi = len(plan["threads"]) > 1
        s = core.Scheduler(sim, plan["policy"], opcodes=plan["opcodes"], trace=multi)
        sim.last_sched = s
        for t in plan["threads"]:
            s.spawn(f"T{t['id']}", lambda t=t: body(t), tid=t["id"])
        for name, (kind, v) in s.run(timeout=80).items():
            if kind == "err":
                raise v


class ArrayExprJax(ArrayExpr):
    name = "arrayexpr_jax"
    Api = JaxApi
    points = 600

    def setup(self):
        ArraysJax.setup(self)
        self.api = self.Api()


def leaves(e):
    if e[0] == "L":
        yield e
        return
    for x in e[1:]:
        if child(x):
            yield from leaves(x)


def ops_in(e):
    yield e[0]
    for x in e[1:]:
        if child(x):
            yield from ops_in(x)
