"""T03: Pyro models whose distributions, observations and masks have named dimensions.

Random models (dependent sites, plates, masks, scales, observations, conditioning) run under a
PyroShim, in histories over a few shim instances, with handlers of `pyro_sample` that change,
replace or observe sites and with exceptions in the middle of models. The values the model
sees, the recorded trace and its log-probabilities are compared, at every assignment of the
names, with the plain distributions on the slices. Pyro keeps its handlers in one list per
process, so a run has one thread."""

from __future__ import annotations

import itertools
import math

from .. import core
from ..base import Scenario
from .dists import EXC, SIZES, _param

KINDS = {"normal": ("real pos", 0), "bern": ("uni", 0), "gamma": ("pos pos", 0), "vec": ("real2 pos2", 1), "dir": ("pos3", 1), "cat": ("simp", 0)}
PLATES = {"P": (4, -1), "Q": (2, -2)}


class PyroModel(Scenario):
    name = "pyromodel"
    droppable = ("runs", "acts", "cond", "faults")

    def setup(self):
        import torch

        torch.set_num_threads(1)
        import pyro
        import pyro.distributions as dist
        import torch._functorch.apis

        import effectful.handlers.pyro  # noqa: F401
        import effectful.handlers.torch  # noqa: F401
        import effectful.internals.runtime  # noqa: F401

        torch.distributions.Distribution.set_default_validate_args(False)
        pyro.enable_validation(False)
        pyro.settings.set(module_local_params=True)

        def use():
            with pyro.poutine.trace(), effectful.handlers.pyro.PyroShim(), pyro.plate("p", 2):
                pyro.sample("x", dist.Normal(0.0, 1.0))

        core.warm(use)

    # ---------------------------------------------------------------- plans

    def generate(self, rng, prop, tier):
        r = rng
        pool = r.sample("abc", r.choice([1, 2, 2, 3]))

        def names(p=0.5):
            return [n for n in r.sample(pool, len(pool)) if r.random() < p]

        sites = []
        for i in range(r.choice([1, 2, 2, 3, 3, 4])):
            plates = r.choice(["", "", "", "P", "P", "Q", "PQ"])
            shapes = {"": [[], [], [3]], "P": [[], [4], [1]], "Q": [[], [2, 1]], "PQ": [[], [4], [2, 4], [2, 1]]}[plates]
            kind = r.choice(list(KINDS))
            wide = r.random() < 0.25  # an observation with names that the distribution does not have
            s = {"n": f"s{i}", "kind": kind, "plates": plates, "seed": r.getrandbits(24), "dep": None, "fmask": None, "cmask": None,
                 "scale": None, "obs": None, "ps": [{"ns": names(0.15 if wide else 0.5), "bs": r.choice(shapes)} for _ in KINDS[kind][0].split()]}
            if i and kind in ("normal", "vec") and r.random() < 0.6:
                s["dep"] = r.randrange(i)
            if r.random() < 0.15:
                s["fmask"] = {"ns": names(0.3), "bs": r.choice(shapes)}
            if wide or r.random() < 0.3:
                s["obs"] = {"ns": names(0.9 if wide else 0.5), "low": r.random() < 0.3}
            if r.random() < (0.7 if wide else 0.3):
                # names of the distribution or the observation only
                s["cmask"] = {"ns": names(), "low": r.random() < 0.5, "bool": r.random() < 0.2}
            if r.random() < 0.15:
                s["scale"] = r.choice([0.5, 2.0, 3.0])
            s["sub"] = "P" in plates and r.random() < 0.25  # a random half of the plate
            s["tag"] = r.random() < 0.2
            s["det"] = r.random() < 0.2
            s["factor"] = r.random() < 0.1
            sites.append(s)
        runs = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            acts = {}
            for i in range(len(sites)):
                if r.random() < 0.3:
                    a = {"act": r.choice(["fwd", "add", "const", "obs", "refn", "raise"]), "ns": names(), "seed": r.getrandbits(24)}
                    if a["act"] == "raise":
                        a["exc"] = r.choice(list(EXC))
                        a["late"] = r.random() < 0.5
                    acts[sites[i]["n"]] = a
            run = {"shim": r.choice([0, 0, 1, 2, -1]), "form": r.choice(["with", "with", "deco", "module"]), "nest": r.random() < 0.15,
                   "acts": acts, "split": r.random() < 0.3, "cond": {}, "ocond": [], "replay": False, "oscale": r.choice([None, None, None, 2.0]), "omask": r.choice([None] * 6 + [True, False]),
                   "seed": r.getrandbits(24), "boom": r.choice([None] * 5 + [r.randrange(len(sites))]), "exc": r.choice(list(EXC))}
            for i in range(len(sites)):
                if r.random() < 0.07:
                    run["ocond"].append(sites[i]["n"])
                elif r.random() < 0.1:
                    run["cond"][sites[i]["n"]] = {"ns": names(), "low": r.random() < 0.3}
            if runs and r.random() < 0.4:
                # the same handlers, so that the last trace can be replayed
                run["acts"], run["cond"] = {n: a for n, a in runs[-1]["acts"].items() if a["act"] != "raise"}, runs[-1]["cond"]
                run["ocond"] = runs[-1]["ocond"]
                run["replay"] = True
            runs.append(run)
        return {"sites": sites, "runs": runs, "faults": [], "seed": r.getrandbits(30)}

    def nontrivial(self, res):
        return bool(res["probes"].get("nontrivial"))

    # ------------------------------------------------------------ execution

    def execute(self, plan, sim):
        try:
            self.run(plan, sim)
        except Exception as e:
            if isinstance(e, (core.Violation, core.HarnessError)) or type(e).__name__ == "SimAbort":
                raise
            import traceback

            # the recorded trace or a value is not usable
            raise core.Violation("error", f"{type(e).__name__}: {str(e)[:300]}\n" + "".join(traceback.format_tb(e.__traceback__))[-1500:]) from None

    def run(self, plan, sim):
        import contextlib
        import warnings

        import numpy as np
        import pyro
        import pyro.distributions as dist
        import torch

        from effectful.handlers.pyro import PyroShim, pyro_module_shim, pyro_sample
        from effectful.handlers.torch import bind_dims, sizesof
        from effectful.ops.semantics import fwd, handler
        from effectful.ops.syntax import defop

        warnings.simplefilter("ignore")
        torch.manual_seed(plan["seed"])
        pyro.clear_param_store()
        dims = {n: defop(torch.Tensor, name=n) for n in SIZES}
        sites = plan["sites"]
        index = {s["n"]: i for i, s in enumerate(sites)}

        class Data:
            """A tensor with names, and its slices."""

            def __init__(self, ns, x):
                self.ns, self.x = ns, np.array(x)

            def named(self):
                t = torch.as_tensor(self.x)
                return t[tuple(dims[n]() for n in self.ns)] if self.ns else t

            def at(self, env):
                return torch.as_tensor(self.x[tuple(env[n] for n in self.ns)])

        def data(ns, t, shape, seed):
            lead = tuple(SIZES[n] for n in ns)
            rng = core.derive("pm", seed)
            if t == "bool":
                x = np.array([rng.random() < 0.5 for _ in range(math.prod(lead + tuple(shape)))]).reshape(lead + tuple(shape))
            elif t in ("bit", "int3"):
                x = np.array([rng.randrange(2 if t == "bit" else 3) for _ in range(math.prod(lead + tuple(shape)))]).reshape(lead + tuple(shape))
                x = x.astype(np.float32) if t == "bit" else x
            else:
                x = _param(rng, t, lead + tuple(shape))
            return Data(ns, x)

        def value(s, o, key):
            """An observed value for the site: `low` leaves out batch dimensions."""
            t = {"normal": "real", "bern": "bit", "gamma": "pos", "vec": "real2", "dir": "simp", "cat": "int3"}[s["kind"]]
            shape = () if o["low"] else shape_of[s["n"]]
            return data(o["ns"], t, shape, core.derive(s["seed"], key).getrandbits(24))

        shape_of = {}
        for s in sites:
            shs = [tuple(p["bs"]) for p in s["ps"]]
            if s["fmask"]:
                shs.append(tuple(s["fmask"]["bs"]))
            for p in s["plates"]:
                n, d = PLATES[p]
                shs.append((n,) + (1,) * (-d - 1))
            shape_of[s["n"]] = np.broadcast_shapes(*shs)

        params = {s["n"]: [data(p["ns"], t, p["bs"], s["seed"] + j) for j, (t, p) in enumerate(zip(KINDS[s["kind"]][0].split(), s["ps"]))]
                  for s in sites}
        fmask = {s["n"]: data(s["fmask"]["ns"], "bool", s["fmask"]["bs"], s["seed"] + 7) for s in sites if s["fmask"]}

        def make(s, ps, dep, mask, batch=None):
            if dep is not None:
                ps = [ps[0] + torch.tanh(dep.sum()), *ps[1:]]
            k = s["kind"]
            d = {"normal": dist.Normal, "bern": dist.Bernoulli, "gamma": dist.Gamma, "vec": dist.Normal, "dir": dist.Dirichlet,
                 "cat": dist.Categorical}[k](*ps)
            if k == "vec":
                d = d.to_event(1)
            if batch is not None:
                d = d.expand(batch)
            if mask is not None:
                d = d.mask(mask)
            return d

        # what a run does to each site
        def names_in(s, seen):
            ns = set()
            for p in params[s["n"]]:
                ns |= set(p.ns)
            if s["dep"] is not None:
                ns |= seen[sites[s["dep"]]["n"]][0]
            if s["fmask"]:
                ns |= set(fmask[s["n"]].ns)
            return ns

        shims = {}
        last = None

        def stack_free(what):
            before = len(calls)
            x = pyro.sample("free", dist.Normal(torch.zeros(3), 1.0))
            if len(calls) != before or sizesof(x) or tuple(x.shape) != (3,):
                raise core.Violation("leak", f"{what}: a sample outside of every handler still reaches them")

        calls = []

        for ri, run in enumerate(plan["runs"]):
            what0 = f"run {ri}"
            acts = {n: a for n, a in run["acts"].items()}
            observed, expect_names, mask_ctx = {}, {}, {}
            seen_names = {}
            for s in sites:
                n = s["n"]
                a = acts.get(n, {"act": "fwd"})
                D = names_in(s, {m: (v,) for m, v in seen_names.items()})
                # innermost first: the model's observation, then a condition on sites without one
                ob = value(s, s["obs"], "obs") if s["obs"] else value(s, run["cond"][n], "cond") if n in run["cond"] else None
                if a["act"] == "obs" and ob is None:
                    ob = value(s, {"ns": a["ns"], "low": False}, a["seed"])
                outer = ob is None and n in run["ocond"]
                if outer:  # conditioned outside of the shim, on a value without names
                    ob = value(s, {"ns": [], "low": False}, "ocond")
                observed[n] = ob
                V = D | set(ob.ns if ob is not None else ())
                expect_names[n] = (D, V)
                if s["cmask"]:
                    c = s["cmask"]
                    ns = [x for x in c["ns"] if x in V]
                    if c["bool"]:
                        mask_ctx[n] = bool(s["seed"] % 2)
                    else:
                        mask_ctx[n] = data(ns, "bool", () if c["low"] else shape_of[n], s["seed"] + 9)
                seen_names[n] = V | set(a["ns"]) if a["act"] == "add" else set(a["ns"]) if a["act"] == "const" else V

            seen, given = {}, {}
            calls.clear()
            excs = {}

            def act_value(s, a):
                if a["act"] == "const":
                    return value(s, {"ns": a["ns"], "low": False}, a["seed"])
                return data(a["ns"], "real", (), a["seed"])

            def model():
                for i, s in enumerate(sites):
                    n = s["n"]
                    if run["boom"] == i:
                        excs["boom"] = EXC[run["exc"]]("boom")
                        sim.fired[run["exc"]] += 1
                        raise excs["boom"]
                    with contextlib.ExitStack() as st:
                        for p in sorted(s["plates"], key=lambda p: PLATES[p][1]):
                            half = {"subsample_size": PLATES[p][0]} if s["sub"] and p == "P" else {}
                            st.enter_context(pyro.plate(p + n, PLATES[p][0] * (2 if half else 1), dim=PLATES[p][1], **half))
                        m = mask_ctx.get(n)
                        if m is not None:
                            st.enter_context(pyro.poutine.mask(mask=m if isinstance(m, bool) else m.named()))
                        if s["scale"]:
                            st.enter_context(pyro.poutine.scale(scale=s["scale"]))
                        d = make(s, [p.named() for p in params[n]], seen[sites[s["dep"]]["n"]] if s["dep"] is not None else None,
                                 fmask[n].named() if n in fmask else None)
                        obs = observed[n].named() if s["obs"] else None
                        more = {"infer": {"tag": n}} if s["tag"] else {}
                        seen[n] = pyro.sample(n, d, obs=obs, **more)
                    if s["factor"]:
                        pyro.factor("f" + n, torch.tensor(0.25 + i))
                    if s["det"]:
                        seen["d" + n] = pyro.deterministic("d" + n, seen[n] * 2, event_dim=None)
                return dict(seen)

            def handle(name, fn, *args, obs=None, **kw):
                calls.append(name)
                if name not in index:
                    return fwd()
                if index[name] is not None and sites[index[name]]["tag"] != ((kw.get("infer") or {}).get("tag") == name):
                    raise core.Violation("effects", f"{what0}: pyro_sample for {name} was given infer={kw.get('infer')}")
                a = acts.get(name, {"act": "fwd"})
                s = sites[index[name]]
                k = a["act"]
                if k == "raise" and not a["late"]:
                    excs[name] = EXC[a["exc"]]("fault")
                    sim.fired[a["exc"]] += 1
                    raise excs[name]
                if k == "const":
                    return act_value(s, a).named()
                if k == "obs" and obs is None:
                    return fwd(name, fn, *args, obs=observed[name].named(), **kw)
                if k == "refn" and s["kind"] == "normal" and not s["fmask"]:
                    return fwd(name, dist.Normal(fn.loc + 1.0, fn.scale * 2.0), *args, obs=obs, **kw)
                x = fwd() if core.derive(a.get("seed", 0)).random() < 0.5 else fwd(name, fn, *args, obs=obs, **kw)
                given[name] = x
                if k == "raise":
                    excs[name] = EXC[a["exc"]]("fault")
                    sim.fired[a["exc"]] += 1
                    raise excs[name]
                return x + act_value(s, a).named() if k == "add" else x

            def observed_by_handler(n):
                return acts.get(n, {"act": "fwd"})["act"] == "obs"

            def log(name, *args, **kw):
                calls.append("log " + name)
                return fwd()

            if run["shim"] < 0:
                shim = PyroShim()
            else:
                shim = shims.setdefault(run["shim"], PyroShim())
            cond = {n: observed[n].named() for n in run["cond"] if not sites[index[n]]["obs"]}
            ocond = {n: observed[n].named() for n in run["ocond"] if not sites[index[n]]["obs"] and not observed_by_handler(n)}
            body = pyro.poutine.condition(model, data=cond) if cond else model
            if run["form"] == "deco":
                go = shim(body)
            elif run["form"] == "module":
                class M(pyro.nn.PyroModule):
                    def forward(self):
                        return body()

                go = pyro_module_shim(M)()
            else:
                def go():
                    with shim:
                        return body()

            replay = None
            if run["replay"] and last is not None:
                replay = last["trace"].copy()
                for n in list(replay.nodes):
                    if replay.nodes[n]["type"] != "sample" or replay.nodes[n]["is_observed"]:
                        replay.remove_node(n)
            torch.manual_seed(run["seed"])
            want = None
            try:
                with contextlib.ExitStack() as st:
                    tr = st.enter_context(pyro.poutine.trace())
                    if replay is not None:
                        st.enter_context(pyro.poutine.replay(trace=replay))
                    if run["oscale"]:
                        st.enter_context(pyro.poutine.scale(scale=run["oscale"]))
                    if ocond:
                        st.enter_context(pyro.poutine.condition(data=ocond))
                    if run["omask"] is not None:
                        st.enter_context(pyro.poutine.mask(mask=run["omask"]))
                    if run["nest"]:
                        st.enter_context(PyroShim())
                    if run["split"]:
                        st.enter_context(handler({pyro_sample: log}))
                    st.enter_context(handler({pyro_sample: handle}))
                    res = go()
            except BaseException as e:  # noqa: BLE001
                if isinstance(e, core.HarnessError) or type(e).__name__ == "SimAbort":
                    raise
                if not any(e is x for x in excs.values()):
                    import traceback

                    raise core.Violation("error", f"{what0} fails with {type(e).__name__}: {str(e)[:300]}\n"
                                         + "".join(traceback.format_tb(e.__traceback__))[-1500:]) from None
                want = e
            else:
                if excs:
                    raise core.Violation("swallowed", f"{what0} succeeds although {list(excs.values())[0]!r} was raised")
            stack_free(what0)
            sim.event(0, ri, "run", type(want).__name__)
            # every site performs the effect once
            base = [c for c in calls if not c.startswith("log ")]
            order = [n for s in sites for n in ([s["n"], "d" + s["n"]] if s["det"] else [s["n"]])]
            if base != order[:len(base)] or (want is None and len(base) != len(order)):
                raise core.Violation("effects", f"{what0}: pyro_sample was performed for {base}, the model has {order}")
            logged = [c for c in calls if c.startswith("log ")]
            forwarded = [n for n in base if acts.get(n, {"act": "fwd"})["act"] != "const" and not (
                acts.get(n, {}).get("act") == "raise" and not acts[n]["late"])]
            if run["split"] and logged != ["log " + n for n in forwarded]:
                raise core.Violation("effects", f"{what0}: the outer handler saw {logged}, forwarded were {forwarded}")
            if want is not None:
                sim.probe("failed_run")
                continue

            def at(x, what, ns):
                """The tensor at every assignment of exactly the names `ns`."""
                sz = dict(sizesof(x))
                have = {n for n in dims if dims[n] in sz}
                if len(have) != len(sz) or have != set(ns):
                    raise core.Violation("names", f"{what} has the named dimensions {sorted(map(str, sz))}, expected {sorted(ns)}")
                order = sorted(have)
                for n in order:
                    if sz[dims[n]] != SIZES[n]:
                        raise core.Violation("size", f"{what}: dimension {n} has size {sz[dims[n]]}, expected {SIZES[n]}")
                y = bind_dims(x, *[dims[n] for n in order]) if order else x
                y = y.detach()
                return lambda env: y[tuple(env[n] for n in order)]

            def envs(ns):
                ns = sorted(ns)
                for c in itertools.product(*[range(SIZES[n]) for n in ns]):
                    yield dict(zip(ns, c))

            def same(x, w, what, env):
                if tuple(x.shape) != tuple(w.shape) or not torch.allclose(x.double(), w.double(), rtol=1e-3, atol=1e-3):
                    raise core.Violation("result", f"{what} at {env} is {x.tolist()}, expected {w.tolist()}")

            trace = tr.trace
            trace.compute_log_prob()
            got_sites = [n for n, nd in trace.nodes.items() if nd["type"] == "sample" and n in index]
            exp_sites = [s["n"] for s in sites if acts.get(s["n"], {"act": "fwd"})["act"] != "const"]
            if got_sites != exp_sites:
                raise core.Violation("trace", f"{what0}: the trace has the sites {got_sites}, expected {exp_sites}")
            if set(res) != set(order):
                raise core.Violation("result", f"{what0}: the model returned {sorted(res)}")
            for i, s in enumerate(sites):
                if s["factor"]:
                    f = trace.nodes.get("f" + s["n"])
                    w = torch.tensor((0.25 + i) * (run["oscale"] or 1.0) * (run["omask"] is not False))
                    if f is None or not torch.allclose(f["log_prob_sum"], w):
                        raise core.Violation("factor", f"{what0}: the factor f{s['n']} is {f and f['log_prob_sum']}, expected {w}")
            seen_at = {}
            for s in sites:
                n = s["n"]
                what = f"{what0}: site {n} ({s['kind']})"
                a = acts.get(n, {"act": "fwd"})
                k = a["act"]
                D, V = expect_names[n]
                B = shape_of[n]
                E = {"vec": (2,), "dir": (3,)}.get(s["kind"], ())
                seen_at[n] = at(res[n], what + ": the value", seen_names[n])
                if s["det"]:
                    det = at(res["d" + n], what + ": its double", seen_names[n])
                    for env in envs(seen_names[n]):
                        same(det(env), seen_at[n](env) * 2, what + ": its double", env)
                if k == "const":
                    c = act_value(s, a)
                    for env in envs(seen_names[n]):
                        same(seen_at[n](env), c.at(env), what + ": the value", env)
                    continue
                node = trace.nodes[n]
                raw = node["value"]
                naming = next((v for v in node.values() if hasattr(v, "name_to_dim") and hasattr(v, "apply")), None)
                if naming is None:  # no way to read the recorded value
                    sim.probe("unreadable_site")
                    continue
                if sizesof(raw):
                    raise core.Violation("trace", f"{what}: the trace holds a value with the named dimensions {sizesof(raw)}")
                if n in ocond:
                    raw = raw.expand(node["fn"].batch_shape + node["fn"].event_shape)
                val = at(naming.apply(raw), what + ": the recorded value", V)
                ob = observed[n]
                if bool(node["is_observed"]) != (ob is not None):
                    raise core.Violation("trace", f"{what}: is_observed is {node['is_observed']}")
                drawn = {}
                for env in envs(V):
                    v = val(env)
                    if tuple(v.shape) != B + E:
                        raise core.Violation("shape", f"{what}: a slice of the value has the shape {tuple(v.shape)}, expected {B + E}")
                    if ob is not None:
                        same(v, ob.at(env).expand(B + E), what + ": the observed value", env)
                    elif s["kind"] in ("normal", "gamma", "vec") and replay is None:
                        for x in v.flatten().tolist():
                            if x in drawn and (s["kind"] != "gamma" or x > 1e-6):
                                raise core.Violation("sample", f"{what}: {x} was drawn at {drawn[x]} and at {env}")
                            drawn[x] = env
                    elif s["kind"] in ("bern", "cat"):
                        if not all(x in ((0, 1) if s["kind"] == "bern" else (0, 1, 2)) for x in v.flatten().tolist()):
                            raise core.Violation("sample", f"{what}: {v.tolist()} was drawn")
                if s["tag"] and node["infer"].get("tag") != n:
                    raise core.Violation("trace", f"{what}: recorded with infer={node['infer']}")
                add = act_value(s, a) if k == "add" else None
                for env in envs(seen_names[n]):
                    v = val({m: env[m] for m in V})
                    same(seen_at[n](env), v if add is None else v + add.at(env), what + ": the value", env)
                # log probabilities and independence
                ev = len(E)
                lp = node["log_prob"].detach()
                place = {m: d + ev for m in V for o, d in naming.name_to_dim.items() if o == dims[m]}
                for m, d in place.items():
                    if lp.dim() < -d or lp.shape[d] != SIZES[m]:
                        raise core.Violation("shape", f"{what}: the log probability has the shape {tuple(lp.shape)}, {m} is dimension {d}")
                    fr = [f for f in node["cond_indep_stack"] if f.dim == d]
                    if m in D and not (len(fr) == 1 and fr[0].size == SIZES[m]):
                        raise core.Violation("plates", f"{what}: {m} is dimension {d} of size {SIZES[m]}, its frames are {fr}")
                for env in envs(V):
                    dep = seen_at[sites[s["dep"]]["n"]]({m: env[m] for m in seen_names[sites[s["dep"]]["n"]]}) if s["dep"] is not None else None
                    pd = make(s, [p.at(env) for p in params[n]], dep, fmask[n].at(env) if n in fmask else None)
                    if k == "refn" and s["kind"] == "normal" and not s["fmask"]:
                        pd = dist.Normal(pd.loc + 1.0, pd.scale * 2.0)
                    w = pd.log_prob(val(env)).expand(B)
                    m = mask_ctx.get(n)
                    if m is not None:
                        w = torch.where(torch.tensor(m) if isinstance(m, bool) else m.at(env), w, torch.zeros(()))
                    w = w * (s["scale"] or 1.0) * (run["oscale"] or 1.0) * (2.0 if s["sub"] else 1.0)
                    if run["omask"] is False:
                        w = w * 0.0
                    idx = [slice(None)] * lp.dim()
                    for x, d in place.items():
                        idx[lp.dim() + d] = env[x]
                    g = lp[tuple(idx)]
                    while g.dim() > len(B) and g.shape[0] == 1:
                        g = g[0]
                    same(g.expand(B) if g.dim() <= len(B) else g, w, what + ": the log probability", env)
                if replay is not None and n in replay.nodes and ob is None:
                    if not torch.equal(raw, last["raw"][n]):
                        raise core.Violation("replay", f"{what}: replayed as {raw.tolist()}, recorded {last['raw'][n].tolist()}")
                    sim.probe("replayed")
                sim.probe("site_" + k)
            last = {"trace": trace, "raw": {n: trace.nodes[n]["value"] for n in got_sites}}
            sim.probe("nontrivial")
