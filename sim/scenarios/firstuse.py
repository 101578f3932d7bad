"""C05: concurrent first use of dataclass terms, array functions, named indexes and
wrapped distributions gives the one operation or term type sequential use would give."""

from __future__ import annotations

import dataclasses
import functools

from .. import core
from ..base import Scenario

TORCH_FNS = ["sin", "cos", "tan", "exp", "log1p", "tanh", "sigmoid", "neg", "abs", "floor", "sqrt", "relu",
             "square", "erf", "ceil", "round"]
TORCH_FNS2 = ["add", "mul", "sub", "maximum", "atan2", "hypot", "pow"]
DISTS = ["Normal", "Cauchy", "Gumbel", "Laplace", "LogNormal", "Exponential", "Poisson", "Gamma", "Beta", "Bernoulli",
         "Uniform", "Weibull", "Pareto", "Chi2", "Dirichlet", "Geometric"]
DIST_ARGS = {"Exponential": 1, "Poisson": 1, "Bernoulli": 1, "Chi2": 1, "Geometric": 1}
NAMES = ["i", "j", "plate", "T_ax"]


class FirstUse(Scenario):
    name = "firstuse"

    def setup(self):
        import effectful.handlers.indexed
        import effectful.handlers.pyro
        import effectful.handlers.torch
        import effectful.internals.runtime
        import effectful.internals.unification
        import effectful.ops.semantics
        import effectful.ops.syntax  # noqa: F401
        import torch
        from pyro import distributions as dist

        core.find_codes(core.PREFIXES + (functools.__file__,))
        # torch imports some of its own modules lazily
        dist.Pareto(torch.tensor(0.5), torch.tensor(0.5))
        torch.broadcast_shapes((1,), (2,))

    def generate(self, rng, prop, tier):
        nd = rng.choice([1, 1, 2, 3])
        dcs = []
        for i in range(nd):
            fields = []
            for n in rng.sample("abcd", rng.choice([1, 2, 3])):
                fields.append([n, rng.choice(["int", "str", "float", "list"] + ([f"D{rng.randrange(i)}"] if i else []))])
            dcs.append({"fields": fields, "base": rng.randrange(i) if i and rng.random() < 0.25 else None,
                        "frozen": rng.random() < 0.2})
        fam = rng.sample(["dc", "sym", "torch", "dist"], rng.choice([1, 1, 2]))
        if rng.random() < 0.3:
            fam = ["dc"]
        tf = rng.sample(TORCH_FNS, 2) + rng.sample(TORCH_FNS2, 1)
        ds = rng.sample(DISTS, 2)
        threads = []
        for t in range(rng.choice([2, 2, 3, 4])):
            ops = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                f = rng.choice(fam)
                if f == "dc":
                    d = rng.randrange(nd)
                    ops.append({"a": "dc", "d": d, "f": rng.choice([None] + [x[0] for x in dcs[d]["fields"]]),
                                "how": rng.choice(["op", "op", "var", "arg"])})
                elif f == "sym":
                    ops.append({"a": "sym", "n": rng.choice(NAMES[:2]), "how": rng.choice(["sym", "stack"])})
                elif f == "torch":
                    ops.append({"a": "torch", "f": rng.choice(tf)})
                else:
                    ops.append({"a": "dist", "f": rng.choice(ds)})
            threads.append({"id": t, "ops_list": ops})
        return {"dcs": dcs, "threads": threads, "policy": core.gen_policy(rng, 800),
                "opcodes": rng.random() < 0.15, "functools": rng.random() < 0.4, "faults": []}

    def execute(self, plan, sim):
        import torch

        import effectful.handlers.indexed as indexed
        import effectful.handlers.pyro  # noqa: F401
        from effectful.handlers.torch import sizesof
        from effectful.ops.semantics import apply, evaluate, handler
        from effectful.ops.syntax import defdata
        from effectful.ops.types import NotHandled, Operation, Term
        from pyro import distributions as dist

        types_, mk = [], []
        for i, d in enumerate(plan["dcs"]):
            base = types_[d["base"]] if d["base"] is not None and d["base"] < len(types_) else None
            fields = []
            for n, t in d["fields"]:
                if t.startswith("D"):
                    k = int(t[1:])
                    if k >= len(types_):
                        t = "int"
                fields.append((n, types_[int(t[1:])] if t.startswith("D") else {"int": int, "str": str, "float": float, "list": list}[t]))
            cls = dataclasses.make_dataclass(
                f"D{i}", fields, bases=(base,) if base is not None else (),
                frozen=d["frozen"] if base is None else bool(getattr(base, "__dataclass_params__").frozen))
            types_.append(cls)

            def f(x: int):
                raise NotHandled

            f.__name__ = f"mk{i}"
            f.__annotations__["return"] = cls
            mk.append(Operation.define(f))
        seen: dict = {}
        terms: list = []
        errs: list = []

        def note(key, val):
            seen.setdefault(key, []).append(val)

        def act(tid, a, n):
            if a["a"] == "dc":
                d = a["d"]
                if d >= len(types_):
                    return
                t = Operation.define(types_[d])() if a["how"] == "var" else mk[d](n)
                if a["how"] == "arg":
                    def taker(x: object) -> object:
                        raise NotHandled

                    Operation.define(taker)(t)
                if not (isinstance(t, Term) and isinstance(t, types_[d])):
                    raise core.Violation("wrong-term", f"thread {tid}: a symbolic D{d} is a {type(t).__name__}")
                note(("term type", d), type(t))
                if a["f"] and a["f"] in {x.name for x in dataclasses.fields(types_[d])}:
                    u = getattr(t, a["f"])
                    note(("field", d, a["f"]), u.op)
                    terms.append((d, a["f"], t, u))
            elif a["a"] == "sym":
                if a["how"] == "sym":
                    note(("index", a["n"]), indexed.name_to_sym(a["n"]))
                else:
                    v = indexed.stack([torch.tensor([1.0]), torch.tensor([2.0])], a["n"])
                    (k,) = sizesof(v)
                    note(("index", a["n"]), k)
            elif a["a"] == "torch":
                x = X()
                r = getattr(torch, a["f"])(x, torch.tensor(2.0)) if a["f"] in TORCH_FNS2 else getattr(torch, a["f"])(x)
                note(("torch", a["f"]), r.op)
            else:
                nargs = DIST_ARGS.get(a["f"], 2)
                if a["f"] == "Dirichlet":
                    args = [torch.tensor([0.5, 0.5])]
                elif a["f"] == "Uniform":
                    args = [torch.tensor(0.0), torch.tensor(1.0)]
                else:
                    args = [torch.tensor(0.5)] * nargs
                d = getattr(dist, a["f"])(*args)
                with handler({apply: defdata}):
                    t = evaluate(d)
                note(("dist", a["f"]), t.op)

        X = Operation.define(torch.Tensor, name="X")

        def run(tid, ops):
            for n, a in enumerate(ops):
                try:
                    act(tid, a, n)
                    sim.event(tid, n, a["a"], a.get("f") or a.get("n") or a.get("d"))
                except core.Violation as v:
                    errs.append(v)
                except Exception as e:  # noqa: BLE001
                    errs.append(core.Violation("first-use-error", f"thread {tid}, {a}: {type(e).__name__}: {e}"))

        s = core.Scheduler(sim, plan["policy"], opcodes=plan["opcodes"],
                           traced=(functools.__file__,) if plan["functools"] else ())
        sim.last_sched = s
        for t in plan["threads"]:
            s.spawn(f"T{t['id']}", lambda t=t: run(t["id"], t["ops_list"]), tid=t["id"])
        for name, o in s.run().items():
            if o[0] == "err":
                raise core.HarnessError(f"{name}: {o[1]!r}")
        # later uses agree
        for t in plan["threads"]:
            run("later", t["ops_list"])
        if errs:
            raise errs[0]
        for key, vals in sorted(seen.items(), key=lambda kv: repr(kv[0])):
            if any(v is not vals[0] for v in vals):
                raise core.Violation("split-registration", f"{key}: {len({id(v) for v in vals})} different objects for one {key[0]}")
        ids: dict = {}
        for key, vals in seen.items():
            k2 = ids.setdefault(id(vals[0]), key)
            if k2 != key:
                raise core.Violation("shared-registration", f"{k2} and {key} gave the same object")
        for d, f, t, u in terms:
            for op in seen[("field", d, f)]:
                if evaluate(u, intp={op: lambda s: "bound"}) != "bound":
                    raise core.Violation("split-registration", f"binding field {f} of D{d} does not apply to a term built by another thread")
            if not hasattr(t, f):
                raise core.Violation("wrong-term", f"term of D{d} has no field {f}")
        for key, vals in seen.items():
            if key[0] == "torch":
                with handler({vals[0]: lambda *a, **k: "handled"}):
                    x = X()
                    r = getattr(torch, key[1])(x, torch.tensor(2.0)) if key[1] in TORCH_FNS2 else getattr(torch, key[1])(x)
                if r != "handled":
                    raise core.Violation("split-registration", f"a handler for torch.{key[1]} is not used")
        if len(plan["threads"]) > 1 and seen:
            sim.probe("nontrivial")
            for key in seen:
                sim.probe("first_use_" + key[0].replace(" ", "_"))

