"""T02: distributions whose parameters have named dimensions.

Random distributions of every supported kind, their parameters over random subsets of the
names and with positional batches, some shared by the threads. Sizes, shapes, samples,
log-probabilities, moments, bind_dims/unbind_dims, substitution and renaming of names,
with failures in the middle of them, are compared at every assignment of the names with the
plain distribution on the slices of the parameters."""

from __future__ import annotations

import itertools
import math
import threading

from .. import core
from ..base import Scenario

SIZES = {"a": 2, "b": 3, "c": 2}
FRESH = {"u": 2, "v": 3}


class Oops(Exception):
    pass


class Abort(BaseException):
    pass


EXC = {"Oops": Oops, "ValueError": ValueError, "AssertionError": AssertionError, "KeyError": KeyError,
       "Abort": Abort, "KeyboardInterrupt": KeyboardInterrupt}

# kind -> types of the parameters; how to make the outcome certain (parameter -> value), and that outcome
TINY = 1e-5
KINDS = {
    "Normal": ("real pos", {1: "tiny"}, "p0"), "Laplace": ("real pos", {1: "tiny"}, "p0"), "Gumbel": ("real pos", {1: "tiny"}, "p0"),
    "Logistic": ("real pos", {1: "tiny"}, "p0"), "LogNormal": ("real pos", {1: "tiny"}, "exp"), "Cauchy": ("real pos", None, None),
    "StudentT": ("pos real pos", {0: "big", 2: "tiny"}, "p1"), "Uniform": ("real pos", {1: "tiny"}, "p0"),
    "Beta": ("pos pos", None, None), "Kumaraswamy": ("pos pos", None, None), "Gamma": ("pos pos", None, None),
    "Pareto": ("pos pos", {1: "big"}, "p0"), "Weibull": ("pos pos", {1: "big"}, "p0"), "VonMises": ("real pos", None, None),
    "Chi2": ("pos", None, None), "Exponential": ("pos", None, None), "Poisson": ("pos", None, None),
    "HalfCauchy": ("pos", None, None), "HalfNormal": ("pos", None, None), "Dirichlet": ("pos3", None, None),
    "Bernoulli": ("uni", {0: "bit"}, "p0"), "BernoulliLogits": ("real", None, None), "Geometric": ("uni", None, None),
    "Categorical": ("simp", {0: "hot"}, "arg"), "CategoricalLogits": ("pos3", None, None),
    # torch's log_prob of a Multinomial (and mean of a StudentT) assigns to items, which tensors with names do not support
    "Binomial": ("uni", {0: "bit"}, "five"), "Multinomial": ("simp", None, None), "NegativeBinomial": ("uni", None, None),
    "LKJ": ("pos", None, None), "MVN": ("real2 tril", {1: "tinytril"}, "p0"), "Wishart": ("tril", None, None),
    "DeltaVec": ("real2 real", {}, "p0"), "Delta": ("real", {}, "p0"), "DeltaDensity": ("real real", {}, "p0"), "RelaxedBernoulli": ("uni", None, None),
    "Indep": ("real2 pos2", {1: "tiny"}, "p0"),
    # pyro only
    "LogisticNormal": ("real2 pos2", None, None), "ContinuousBernoulli": ("uni", None, None), "OneHot": ("simp", {0: "hot"}, "p0"),
    "FisherSnedecor": ("pos pos", None, None), "RelaxedTemp": ("pos uni", None, None), "Masked": ("real pos", {1: "tiny"}, "p0"),
    "MaskedT": ("real uni", None, None), "Folded": ("real pos", {1: "tiny"}, "abs"),
    # numpyro only
    "GeometricLogits": ("real", None, None), "BinomialLogits": ("real", None, None), "MultinomialLogits": ("pos3", None, None),
    "NegativeBinomialLogits": ("pos real", None, None), "LowRank": ("real2 fac pos2", None, None), "DirichletMultinomial": ("pos3", None, None),
}
EVENT = {"real": 0, "pos": 0, "uni": 0, "simp": 1, "pos3": 1, "real2": 1, "pos2": 1, "tril": 2, "fac": 2}
PYRO = [k for k in KINDS if k not in ("Multinomial", "GeometricLogits", "BinomialLogits", "MultinomialLogits", "NegativeBinomialLogits", "LowRank", "DirichletMultinomial")]
NUMPYRO = [k for k in KINDS if k not in ("LogisticNormal", "ContinuousBernoulli", "OneHot", "FisherSnedecor", "RelaxedTemp", "Masked", "MaskedT", "Folded")]
# torch.vmap cannot run these samplers (rejection loops, in-place scatter)
NOSAMPLE = {"torch": {"VonMises", "Wishart", "Multinomial"}, "jax": set()}
DISCRETE = {"Bernoulli", "BernoulliLogits", "Geometric", "Categorical", "CategoricalLogits", "Binomial", "Multinomial", "NegativeBinomial",
            "Poisson", "Delta", "DeltaDensity", "DeltaVec", "OneHot", "GeometricLogits", "BinomialLogits", "MultinomialLogits",
            "NegativeBinomialLogits", "DirichletMultinomial"}
# torch: other samplers draw their noise once for all slices
INDEPENDENT = {"Normal", "Indep", "Masked"}
# the samples need not have the names of all parameters
PARTIAL = {"MaskedT", "Delta", "DeltaDensity", "DeltaVec"}


class Dists(Scenario):
    name = "dists"
    backend = "torch"
    kinds = PYRO

    def setup(self):
        import torch

        torch.set_num_threads(1)
        import effectful.handlers.pyro as E  # noqa: F401
        import effectful.internals.runtime
        import effectful.internals.unification
        import effectful.ops.semantics
        import effectful.ops.syntax  # noqa: F401
        from pyro import distributions as dist

        torch.distributions.Distribution.set_default_validate_args(False)
        self._warm(torch, dist)

    def _warm(self, torch, dist):
        from effectful.handlers.torch import bind_dims, sizesof, unbind_dims
        from effectful.ops.syntax import defop

        a = defop(torch.Tensor, name="a")
        L = self.lib()

        def use(k):
            p = [torch.as_tensor(_param(core.derive("warm", k), t, (2,)))[a()] for t in KINDS[k][0].split()]
            d = L.make(k, p)
            sizesof(d)
            if k not in NOSAMPLE["torch"]:
                v = d.sample()
                d.log_prob(bind_dims(v, a)[0] if sizesof(v) else v)

        core.warm(
            # torch imports some of its own modules lazily
            lambda: dist.Pareto(torch.tensor(0.5), torch.tensor(0.5)).sample(),
            lambda: torch.broadcast_shapes((1,), (2,)),
            *[lambda k=k: use(k) for k in self.kinds],
            lambda: unbind_dims(bind_dims(dist.Normal(torch.zeros(2)[a()], 1.0), a), a),
        )

    # ---------------------------------------------------------------- plans

    def generate(self, rng, prop, tier):
        r = rng
        pool = r.sample("abc", r.choice([1, 2, 2, 3]))
        dists = []
        few = r.sample(self.kinds, r.choice([1, 1, 2, 3]))
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.choice(few)
            types, tight, _o = KINDS[k]
            bs = r.choice([[], [], [2], [3], [2, 3]])
            ps = []
            for t in types.split():
                low = k not in ("DeltaDensity", "DeltaVec", "RelaxedTemp") and r.random() < 0.25
                b = r.choice([bs[1:], []]) if low else bs
                ps.append({"ns": r.sample(pool, r.randrange(0, len(pool) + 1)), "bs": b})
            if k == "Indep" or (k == "RelaxedTemp" and len(ps[0]["bs"]) > len(ps[1]["bs"])):
                for p in ps:
                    p["bs"] = bs
            if not any(p["ns"] for p in ps):
                r.choice(ps)["ns"] = [pool[0]]
            dists.append({"kind": k, "ps": ps, "tight": tight is not None and r.random() < 0.5, "same": r.random() < 0.3,
                          "seed": r.getrandbits(24), "defer": self.backend == "jax" and r.random() < 0.3})
        threads = []
        for t in range(r.choice([1, 1, 2, 2, 3])):
            steps = []
            for _ in range(r.choice([1, 2, 3, 4] if self.backend == "torch" else [1, 2, 3])):
                i = r.randrange(len(dists))
                used = sorted(set().union(*[p["ns"] for p in dists[i]["ps"]]))
                k = r.choice(["sizes", "shape", "sample", "sample", "logp", "logp", "logp", "bind", "bind", "bind", "slice", "rename",
                              "boom", "embed", "moments", "derive", "derive"])
                s = {"k": k, "d": i, "ss": r.choice([[], [], [2], [2, 3]]), "seed": r.getrandbits(24)}
                if k == "logp":
                    s["vn"] = r.sample(pool, r.randrange(0, len(pool) + 1))
                    s["low"] = r.random() < 0.25
                if k == "bind":
                    s["nb"] = r.sample(used, r.randrange(1, len(used) + 1))
                    s["un"] = r.choice([0, 1, 2])
                    s["back"] = r.random() < 0.5
                    s["samp"] = r.random() < 0.4
                if k == "slice":
                    s["at"] = {n: r.randrange(SIZES[n]) for n in r.sample(used, r.randrange(1, len(used) + 1))}
                if k == "rename":
                    s["n"] = r.choice(used)
                if k == "derive":
                    s["q"] = r.choice(["entropy", "enum", "enum0", "expand", "expand", "to_event", "to_event", "cdf"])
                if k == "boom":
                    s["n"] = r.choice(used)
                    s["at"] = r.choice([0, 0, 1, 2])
                    s["exc"] = r.choice(list(EXC))
                steps.append(s)
            threads.append({"id": t, "steps": steps})
        return {"dists": dists, "threads": threads, "faults": [], "seed": r.getrandbits(30),
                "policy": core.gen_policy(r, self.horizon), "opcodes": False, "own": r.random() < 0.2}

    horizon = 4000

    # ------------------------------------------------------------ execution

    def lib(self):
        import torch

        import effectful.handlers.torch as E
        from pyro import distributions as D

        mk = {
            "StudentT": lambda d, m, s: D.StudentT(d, m, s), "Uniform": lambda lo, w: D.Uniform(lo, lo + w),
            "BernoulliLogits": lambda x: D.Bernoulli(logits=x), "CategoricalLogits": lambda x: D.Categorical(logits=x),
            "Binomial": lambda p: D.Binomial(5, p), "Multinomial": lambda p: D.Multinomial(4, p),
            "NegativeBinomial": lambda p: D.NegativeBinomial(4, p), "LKJ": lambda c: D.LKJCholesky(3, c),
            "MVN": lambda m, t: D.MultivariateNormal(m, scale_tril=t), "Wishart": lambda t: D.Wishart(torch.tensor(4.0), t),
            "DeltaDensity": lambda v, p: D.Delta(v, p), "DeltaVec": lambda v, p: D.Delta(v, p, event_dim=1), "RelaxedBernoulli": lambda p: D.RelaxedBernoulli(torch.tensor(0.7), p),
            "RelaxedTemp": lambda t, p: D.RelaxedBernoulli(t, p), "Indep": lambda m, s: D.Normal(m, s).to_event(1),
            "OneHot": lambda p: D.OneHotCategorical(p), "Masked": lambda m, s: D.Normal(m, s).mask(True),
            "MaskedT": lambda m, k: D.Normal(m, torch.tensor(1.0)).mask(k > 0.5), "Folded": lambda m, s: D.FoldedDistribution(D.Normal(m, s)),
        }

        class L:
            T = torch.Tensor
            sizesof = staticmethod(E.sizesof)
            bind = staticmethod(lambda v, *n: E.bind_dims(v, *n))
            unbind = staticmethod(lambda v, *n: E.unbind_dims(v, *n))
            array = staticmethod(torch.as_tensor)
            getitem = staticmethod(lambda t, k: t[k])
            arr = staticmethod(lambda x: x.detach().numpy())
            const = staticmethod(torch.tensor)

            @staticmethod
            def make(kind, ps):
                return mk.get(kind, getattr(D, kind, None))(*ps)

            plain = make
            embed = make

            @staticmethod
            def sample(d, ss, key):
                return d.sample(torch.Size(ss))

            @staticmethod
            def logp(d, v):
                return d.log_prob(v)

        return L

    def execute(self, plan, sim):
        import warnings

        import numpy as np

        from effectful.ops.semantics import evaluate, handler
        from effectful.ops.syntax import defop
        from effectful.ops.types import Term

        warnings.simplefilter("ignore")
        L = self.lib()
        if self.backend == "torch":
            import torch

            torch.manual_seed(plan["seed"])
        dims = {n: defop(L.T, name=n) for n in (*SIZES, *FRESH)}
        size = {**SIZES, **FRESH}
        loc = threading.local()

        def envs(ns):
            ns = sorted(ns)
            for c in itertools.product(*[range(size[n]) for n in ns]):
                yield dict(zip(ns, c))

        class Dist:
            """One distribution: the named one and the plain ones of its slices."""

            def __init__(self, spec, sub=False):
                self.kind = spec["kind"]
                types, tight, self.outcome = KINDS[self.kind]
                rng = core.derive("dist", spec["seed"])
                self.ps = []
                for j, (t, p) in enumerate(zip(types.split(), spec["ps"])):
                    how = tight.get(j) if spec["tight"] else None
                    full = tuple(p["bs"])
                    shape = full if spec["same"] else tuple(SIZES[n] for n in p["ns"]) + full
                    x = _param(rng, t, shape, how)
                    if spec["same"]:
                        x = np.broadcast_to(x, tuple(SIZES[n] for n in p["ns"]) + x.shape)
                    self.ps.append((p["ns"], np.array(x)))
                self.tight = spec["tight"]
                self.used = sorted(set().union(*[p["ns"] for p in spec["ps"]]))
                self.pos = {}

            def params(self):
                return [L.getitem(L.array(x), tuple(dims[n]() for n in ns)) if ns else L.array(x) for ns, x in self.ps]

            def slice(self, env):
                return [x[tuple(env[n] for n in ns)] for ns, x in self.ps]

            def plain(self, env):
                key = tuple(sorted(env.items()))
                if key not in self.pos:
                    self.pos[key] = L.plain(self.kind, [L.array(x) for x in self.slice(env)])
                return self.pos[key]

            def first(self):
                return self.plain({n: 0 for n in self.used})

            def certain(self, env):
                p = self.slice(env)
                o = self.outcome
                return {"p0": lambda: p[0], "p1": lambda: p[1], "exp": lambda: np.exp(p[0]), "abs": lambda: np.abs(p[0]),
                        "arg": lambda: np.argmax(p[0], -1), "five": lambda: 5 * p[0]}[o]()

        refs = [Dist(s) for s in plan["dists"]]

        def build(i):
            spec, ref = plan["dists"][i], refs[i]
            ps = ref.params()
            if spec["defer"]:
                # built with a parameter still to come, which is then given
                hole = defop(L.T, name="hole")
                term = L.make(ref.kind, [hole(), *ps[1:]])
                with handler({hole: lambda: ps[0]}):
                    return evaluate(term)
            return L.make(ref.kind, ps)

        shared = None if plan["own"] else [build(i) for i in range(len(refs))]

        def names_of(x, what, want, exact=True):
            sizes = dict(L.sizesof(x))
            have = {n for n in size if dims[n] in sizes}
            if len(have) != len(sizes) or not (have == set(want) if exact else have <= set(want)):
                raise core.Violation("names", f"{what} has the named dimensions {sorted(map(str, sizes))}, expected {sorted(want)}")
            for n in have:
                if sizes[dims[n]] != size[n]:
                    raise core.Violation("size", f"{what}: dimension {n} has size {sizes[dims[n]]}, expected {size[n]}")
            return have

        def shape_of(d, what, batch, event):
            got = tuple(d.batch_shape), tuple(d.event_shape)
            if got != (tuple(batch), tuple(event)):
                raise core.Violation("shape", f"{what} has the batch and event shapes {got}, expected {(tuple(batch), tuple(event))}")

        def check(what, got, ns, want, exact=True, lead=(), tol=1e-3):
            """`got`, at every assignment of the names `ns`, is want(env); `lead`: bound names, in front."""
            have = names_of(got, what, ns, exact)
            order = sorted(have)
            x = L.bind(got, *[dims[n] for n in order]) if order else got
            if isinstance(x, Term):
                raise core.Violation("unevaluated", f"{what} is the unevaluated {str(x)[:200]}")
            x = np.asarray(L.arr(x))
            for env in envs(set(ns) | set(lead)):
                try:
                    g = x[tuple(env[n] for n in order)]
                    g = g[tuple(env[n] for n in lead)] if lead else g
                except IndexError:
                    raise core.Violation("shape", f"{what} has the positional shape {x.shape[len(order):]}") from None
                w = np.asarray(L.arr(want(env)))
                if g.shape != w.shape or not np.allclose(g, w, rtol=tol, atol=tol, equal_nan=True):
                    raise core.Violation("result", f"{what} at {env} is {g.tolist()}; the plain distribution gives {w.tolist()}")

        def plain_sample(ref, ss, seed):
            v = ref.first()
            return np.asarray(L.arr(L.sample(v, ss, seed)))

        def body(t):
            loc.st = t["id"]
            ds = [build(i) for i in range(len(refs))] if shared is None else shared
            for j, s in enumerate(t["steps"]):
                ref, d = refs[s["d"]], ds[s["d"]]
                what = f"step {j}: {s['k']} of a {ref.kind} over {ref.used}"
                try:
                    step(t, s, ref, d, what)
                except core.Violation:
                    raise
                except BaseException as e:  # noqa: BLE001
                    if isinstance(e, core.HarnessError) or type(e).__name__ == "SimAbort":
                        raise
                    import traceback

                    raise core.Violation("error", f"{what} fails with {type(e).__name__}: {str(e)[:300]}\n" + "".join(traceback.format_tb(e.__traceback__))[-1500:]) from None
                sim.event(t["id"], j, s["k"], "ok")
                sim.probe("nontrivial")
                sim.probe("op_" + s["k"])

        def step(t, s, ref, d, what):
            k = s["k"]
            used = ref.used
            p0 = ref.first()
            B, E = tuple(p0.batch_shape), tuple(p0.event_shape)
            if k == "sizes":
                names_of(d, what, used)
            elif k == "shape":
                shape_of(d, what, B, E)
                names_of(d, what, used)
            elif k == "sample":
                if ref.kind not in NOSAMPLE[self.backend]:
                    sampled(what, ref, L.sample(d, s["ss"], s["seed"]), used, s["ss"], B, E)
            elif k == "logp":
                ss = tuple(s["ss"])
                v = values(ref, s["vn"], ss, s["seed"])
                if s["low"] and B:
                    # fewer dimensions than the distribution
                    cut = core.derive(s["seed"]).randrange(1, len(ss) + len(B) + 1)
                    v = v[(slice(None),) * len(s["vn"]) + (0,) * cut]
                logp(what, ref, d, v, s["vn"], used, used)
            elif k == "bind":
                nb = s["nb"]
                rest = [n for n in used if n not in nb]
                bd = L.bind(d, *[dims[n] for n in nb])
                lead = tuple(size[n] for n in nb)
                names_of(bd, what, rest)
                shape_of(bd, what, lead + B, E)
                x = plain_sample(ref, s["ss"] if s["seed"] % 2 else [], s["seed"])
                x = np.stack([plain_sample(ref, [], s["seed"] + i) for i in range(math.prod(lead))]).reshape(lead + B + E)
                bound(what, ref, bd, x, nb, rest)
                if s["samp"] and ref.kind not in NOSAMPLE[self.backend]:
                    y = L.sample(bd, s["ss"], s["seed"])
                    names_of(y, what + " (sample)", rest, ref.kind not in PARTIAL)
                    if tuple(y.shape) != tuple(s["ss"]) + lead + B + E:
                        raise core.Violation("shape", f"{what}: samples {s['ss']} have the shape {tuple(y.shape)}")
                m = min(s["un"], len(nb)) if self.backend == "jax" or ref.kind != "Wishart" else 0
                if m:
                    # name them again
                    new = nb[:m] if s["back"] else [f for n in nb[:m] for f in FRESH if size[f] == size[n]]
                    if len(set(new)) < m:
                        new = nb[:m]
                    ud = L.unbind(bd, *[dims[n] for n in new])
                    names_of(ud, what + " and unbind", rest + new)
                    shape_of(ud, what + " and unbind", tuple(size[n] for n in nb[m:]) + B, E)
                    bound(what + " and unbind", ref, ud, x, nb, rest, dict(zip(new, nb[:m])))
            elif k == "slice":
                at = s["at"]
                with handler({dims[n]: (lambda i=i: L.const(i)) for n, i in at.items()}):
                    e = evaluate(d)
                rest = [n for n in used if n not in at]
                names_of(e, what, rest)
                shape_of(e, what, B, E)
                x = plain_sample(ref, [], s["seed"])
                check(what, L.logp(e, L.array(x)), rest, lambda env: L.logp(ref.plain({**env, **at}), L.array(x)))
            elif k == "rename":
                new = next((f for f in FRESH if size[f] == size[s["n"]]), None)
                with handler({dims[s["n"]]: lambda: dims[new]()}):
                    e = evaluate(d)
                now = [new if n == s["n"] else n for n in used]
                names_of(e, what, now)
                shape_of(e, what, B, E)
                x = plain_sample(ref, [], s["seed"])
                check(what, L.logp(e, L.array(x)), now, lambda env: L.logp(ref.plain({(s["n"] if n == new else n): i for n, i in env.items()}), L.array(x)))
            elif k == "boom":
                left = [s["at"]]
                exc = EXC[s["exc"]]("fault")

                def fail():
                    sim.point("inside")
                    left[0] -= 1
                    if left[0] < 0:
                        sim.fired[s["exc"]] += 1
                        raise exc
                    return L.const(0)

                try:
                    with handler({dims[s["n"]]: fail}):
                        evaluate(d)
                except BaseException as e:  # noqa: BLE001
                    if e is not exc:
                        raise
                else:
                    if left[0] < 0:
                        raise core.Violation("swallowed", f"{what}: evaluation succeeds although {exc!r} was raised")
                names_of(d, what + " afterwards", used)
                shape_of(d, what + " afterwards", B, E)
            elif k == "embed" and ref.kind != "Wishart":  # torch compares its df with the dimension, numpyro keeps it in another shape
                # a plain distribution, its dimensions given names
                order = sorted(used)
                lead = tuple(size[n] for n in order)
                full = []
                for (ns, x), ty in zip(ref.ps, KINDS[ref.kind][0].split()):
                    tail = x.shape[len(ns):]
                    ev = tail[len(tail) - EVENT[ty]:]
                    y = np.transpose(x, [ns.index(n) for n in order if n in ns] + list(range(len(ns), x.ndim)))
                    y = y.reshape(tuple(size[n] if n in ns else 1 for n in order) + (1,) * (len(B) + len(ev) - len(tail)) + tail)
                    tgt = lead + B + ev
                    full.append(L.array(np.array(np.broadcast_to(y, tgt))))
                pd = L.embed(ref.kind, full)
                ud = L.unbind(pd, *[dims[n] for n in order])
                names_of(ud, what, order)
                shape_of(ud, what, B, E)
                x = plain_sample(ref, [], s["seed"])
                check(what, L.logp(ud, L.array(x)), order, lambda env: L.logp(ref.plain(env), L.array(x)))
                bd = L.bind(ud, *[dims[n] for n in reversed(order)])
                shape_of(bd, what, tuple(size[n] for n in reversed(order)) + B, E)
                names_of(bd, what, [])
            elif k == "derive":
                q = s["q"]
                tgt = tuple(s["ss"]) + B
                val = None

                def run(x):
                    if q == "entropy":
                        return x.entropy()
                    if q in ("enum", "enum0"):
                        return x.enumerate_support(expand=q == "enum")
                    if q == "cdf":
                        if self.backend == "jax":
                            raise NotImplementedError  # not offered on terms
                        return x.cdf(val)
                    return L.logp(x.expand(tgt) if q == "expand" else x.to_event(len(B)), val)

                if q in ("expand", "to_event", "cdf"):
                    val = L.array(plain_sample(ref, s["ss"], s["seed"]))
                try:
                    if self.backend == "torch" and ref.kind == "Binomial" and q in ("entropy", "enum", "enum0"):
                        raise NotImplementedError  # torch looks at the largest count
                    run(p0)
                except Exception:  # noqa: BLE001  (not every distribution has it)
                    sim.probe("plain_refuses")
                    return
                if q == "expand":
                    shape_of(d.expand(tgt), what, tgt, E)
                elif q == "to_event":
                    shape_of(d.to_event(len(B)), what, (), B + E)
                check(f"{what} ({q})", run(d), used, lambda env: run(ref.plain(env)), exact=False)
                sim.probe("derive_" + q)
            elif k == "moments":
                for q in ("mean", "variance"):
                    try:
                        w = getattr(p0, q)
                        ok = np.isfinite(np.asarray(L.arr(w))).all()
                    except Exception:  # noqa: BLE001  (not every distribution has them)
                        continue
                    if ok and self.backend == "jax" or ref.kind in ("Normal", "Laplace", "Beta", "Gamma", "Exponential", "Bernoulli", "Poisson", "Dirichlet", "Indep"):
                        check(f"{what} ({q})", getattr(d, q), used, lambda env, q=q: getattr(ref.plain(env), q), exact=False)
                        sim.probe("moment")

        def values(ref, vn, ss, seed):
            n = math.prod(size[x] for x in vn)
            xs = [plain_sample(ref, ss, seed + i) for i in range(n)]
            return np.stack(xs).reshape(tuple(size[x] for x in vn) + xs[0].shape)

        def logp(what, ref, d, v, vn, used, allp):
            val = L.array(v)
            val = L.getitem(val, tuple(dims[n]() for n in vn)) if vn else val
            want = lambda env: L.logp(ref.plain({n: env[n] for n in used}), L.array(v[tuple(env[n] for n in vn)]))  # noqa: E731
            try:
                want(dict.fromkeys([*used, *vn], 0))
            except Exception:  # noqa: BLE001  (numpyro's MultivariateNormal does not take every broadcastable value)
                sim.probe("plain_refuses")
                return
            got = L.logp(d, val)
            check(what, got, sorted(set(used) | set(vn)), want, exact=ref.kind not in PARTIAL)

        def bound(what, ref, d, x, nb, rest, renamed=None):
            """log_prob of `d`, whose names `nb` were bound (and some named again, as the keys of `renamed`)."""
            renamed = renamed or {}
            old = {o: n for n, o in renamed.items()}
            v = L.array(x)
            if renamed:
                v = L.getitem(v, tuple(dims[n]() for n in renamed))
            lead = [n for n in nb if n not in old]
            got = L.logp(d, v)

            def want(env):
                e = {n: env[old.get(n, n)] for n in ref.used}
                return L.logp(ref.plain(e), L.array(x[tuple(e[n] for n in nb)]))

            check(what + " (log_prob)", got, rest + list(renamed), want, exact=ref.kind not in PARTIAL, lead=lead)

        def sampled(what, ref, y, used, ss, B, E):
            have = names_of(y, what, used, ref.kind not in PARTIAL)
            if tuple(y.shape) != tuple(ss) + B + E:
                raise core.Violation("shape", f"{what}: samples {ss} have the shape {tuple(y.shape)}, expected {tuple(ss) + B + E}")
            order = sorted(have)
            x = np.asarray(L.arr(L.bind(y, *[dims[n] for n in order]) if order else y))
            seen = {}
            for env in envs(have):
                g = x[tuple(env[n] for n in order)]
                if ref.tight:
                    full = {**{n: 0 for n in used}, **env}
                    w = np.broadcast_to(np.asarray(ref.certain(full)), g.shape)
                    if not np.allclose(g, w, rtol=2e-2, atol=2e-2):
                        raise core.Violation("sample", f"{what} at {env} is {g.tolist()}, expected about {w.tolist()}")
                elif ref.kind in INDEPENDENT or self.backend == "jax" and ref.kind not in DISCRETE:
                    key = g.tobytes()
                    if key in seen:
                        raise core.Violation("sample", f"{what}: the samples at {env} and {seen[key]} are the same {g.tolist()}")
                    seen[key] = env

        multi = len(plan["threads"]) > 1
        s = core.Scheduler(sim, plan["policy"], opcodes=plan["opcodes"], trace=multi)
        sim.last_sched = s
        for t in plan["threads"]:
            s.spawn(f"T{t['id']}", lambda t=t: body(t), tid=t["id"])
        for name, (kind, v) in s.run(timeout=80).items():
            if kind == "err":
                raise v


def _param(rng, t, shape, how=None):
    import numpy as np

    ev = {"simp": (3,), "pos3": (3,), "real2": (2,), "pos2": (2,), "tril": (2, 2), "fac": (2, 1)}.get(t, ())

    def draw(lo, hi, shape):
        n = math.prod(shape)
        return np.array([rng.uniform(lo, hi) for _ in range(n)], dtype=np.float32).reshape(shape)

    if t in ("real", "real2", "fac"):
        x = draw(-1, 1, shape + ev)
    elif t in ("pos", "pos3", "pos2"):
        x = draw(0.4, 2, shape + ev)
    elif t == "uni":
        x = draw(0.2, 0.8, shape + ev)
    elif t == "simp":
        x = draw(0.3, 2, shape + ev)
        x = x / x.sum(-1, keepdims=True)
    else:
        x = np.tril(draw(-0.2, 0.2, shape + ev)) + np.eye(2, dtype=np.float32) * draw(0.8, 1.4, shape + (1, 1))
    if how == "tiny":
        x = x * TINY
    elif how == "tinytril":
        x = x * TINY
    elif how == "big":
        x = x * 3e3
    elif how == "bit":
        x = np.round(x)
    elif how == "hot":
        x = np.eye(3)[np.argmax(x, -1)]
    return x.astype(np.float32)


class DistsJax(Dists):
    """The same with numpyro."""

    name = "dists_jax"
    backend = "jax"
    kinds = NUMPYRO
    horizon = 600

    def setup(self):
        import os

        os.environ.setdefault("XLA_FLAGS", "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true "
                                           "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
        os.environ.setdefault("JAX_PLATFORMS", "cpu")
        import jax._src.pjit

        import effectful.handlers.numpyro  # noqa: F401
        import effectful.internals.runtime  # noqa: F401
        import effectful.ops.semantics  # noqa: F401

        core.NOPREEMPT.update({jax._src.pjit.__file__})

    def lib(self):
        import jax
        import numpy as np
        import numpyro.distributions as N

        import effectful.handlers.jax as E
        import effectful.handlers.numpyro as D

        probs = {"Bernoulli": "BernoulliProbs", "Geometric": "GeometricProbs", "Categorical": "CategoricalProbs"}

        def maker(M):
            mk = {
                "Uniform": lambda lo, w: M.Uniform(lo, lo + w),
                "Binomial": lambda p: M.BinomialProbs(p, 5), "BinomialLogits": lambda p: M.BinomialLogits(p, 5),
                "Multinomial": lambda p: M.MultinomialProbs(p, 4), "MultinomialLogits": lambda p: M.MultinomialLogits(p, 4),
                "NegativeBinomial": lambda p: M.NegativeBinomialProbs(4, p), "LKJ": lambda c: M.LKJCholesky(3, c),
                "MVN": lambda m, t: M.MultivariateNormal(m, scale_tril=t), "Wishart": lambda t: M.Wishart(4.0, scale_tril=t),
                "LowRank": lambda m, f, c: M.LowRankMultivariateNormal(m, f, c), "DeltaDensity": lambda v, p: M.Delta(v, p), "DeltaVec": lambda v, p: M.Delta(v, p, 1),
                "RelaxedBernoulli": lambda p: M.RelaxedBernoulliLogits(0.7, p), "Indep": lambda m, s: M.Independent(M.Normal(m, s), 1),
                "DirichletMultinomial": lambda c: M.DirichletMultinomial(c, 4),
            }
            return lambda kind, ps: mk.get(kind, getattr(M, probs.get(kind, kind), None))(*ps)

        class L:
            T = jax.Array
            sizesof = staticmethod(E.sizesof)
            bind = staticmethod(lambda v, *n: E.bind_dims(v, *n))
            unbind = staticmethod(lambda v, *n: E.unbind_dims(v, *n))
            array = staticmethod(jax.numpy.asarray)
            getitem = staticmethod(lambda t, k: E.jax_getitem(t, k))
            arr = staticmethod(np.asarray)
            const = staticmethod(jax.numpy.asarray)
            make = staticmethod(maker(D))
            plain = staticmethod(maker(N))
            embed = staticmethod(maker(N))

            @staticmethod
            def sample(d, ss, key):
                return d.sample(jax.random.PRNGKey(key), tuple(ss))

            @staticmethod
            def logp(d, v):
                return d.log_prob(v)

        return L
