#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] | check.py --replay FILE

Seeded simulation of one property. Exit 0: held on everything explored. Exit 1 with a
line `VIOLATION property=<id> replay=<path>`: broken. Any other exit: harness error."""

from __future__ import annotations

import collections
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable


def env():
    e = dict(os.environ)
    e.update(
        PYTHONPATH=HERE + os.pathsep + os.environ.get("VERIF_REPO", "/repo"),
        PYTHONHASHSEED=os.environ.get("VERIF_HASHSEED", "0"),
        PYTHONDONTWRITEBYTECODE="1",
        LITELLM_LOCAL_MODEL_COST_MAP="True",
        LITELLM_LOG="ERROR",
        JAX_PLATFORMS="cpu",
        CUDA_VISIBLE_DEVICES="",
        HF_HUB_OFFLINE="1",
        TOKENIZERS_PARALLELISM="false",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        PYTHONWARNINGS="ignore",
    )
    e.pop("PYTHONSTARTUP", None)
    return e


def sim_cmd(*args):
    cmd = [PY, "-m", "sim.runner", *map(str, args)]
    return cmd


class Server:
    """A fresh worker process that executes given plans, one forked child each."""

    def __init__(self, prop):
        self.p = subprocess.Popen(sim_cmd("serve", prop), cwd=HERE, env=env(), text=True,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get("VERIF_DEBUG") else subprocess.DEVNULL)
        if not self.p.stdout.readline():
            raise RuntimeError("worker did not start")

    def run(self, plan, log=False, timeout=None):
        self.p.stdin.write(json.dumps({"plan": plan, "log": log, "timeout": timeout}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("worker died")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def vclass(res):
    if res["status"] == "violation":
        return res["cls"]
    if res["status"] == "hang":
        return "hang"
    return None


def known_findings(prop):
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            items = json.load(f)["findings"]
    except FileNotFoundError:
        return []
    return [k for k in items if k["property"] == prop]


def match_known(known, res):
    for k in known:
        if k["class"] == vclass(res) and re.search(k["match"], res.get("msg", ""), re.S):
            return k
    return None


def explicit(plan, res):
    """The same run with its schedule written out."""
    if res.get("switches") is None:
        return plan
    p = json.loads(json.dumps(plan))
    p["policy"] = {"kind": "explicit", "seed": plan.get("policy", {}).get("seed", 0),
                   "switches": res["switches"]}
    return p


def report_violation(prop, seed, plan, res, scn_keys, known):
    cls = vclass(res)
    srv = Server(prop)
    timeout = 130 if cls == "hang" else None

    def fails(p):
        r = srv.run(p, timeout=timeout)
        if vclass(r) == cls and not match_known(known, r):
            q = explicit(p, r) if p.get("policy", {}).get("kind") == "explicit" else p
            # keep the recorded schedule only when it is not longer
            if q is not p and len(q["policy"]["switches"]) > len(p["policy"]["switches"]):
                q = p
            return q
        return None

    confirmed, how = None, "seed"
    ex = explicit(plan, res)
    for cand in (ex, plan):
        for _ in range(2):
            got = fails(cand)
            if got is not None:
                confirmed = got
                break
        if confirmed is not None:
            how = "explicit schedule" if cand is ex and ex is not plan else "plan"
            break
    tried = 0
    whole = confirmed
    if confirmed is not None and cls != "hang":
        from sim.minimise import minimise
        confirmed, tried = minimise(confirmed, fails, scn_keys, budget=40.0)
    srv.close()
    # a fresh process must fail the same way
    srv2 = Server(prop)
    for final in (confirmed, whole, plan):
        if final is None:
            continue
        r = srv2.run(final, log=True, timeout=timeout)
        r2 = srv2.run(final, log=True, timeout=timeout)
        if vclass(r) == cls and vclass(r2) == cls:
            break
    srv2.close()
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{prop}-{seed}-{res.get('i', 0)}.json")
    doc = dict(property=prop, seed=seed, run=res.get("i"), scenario=plan["scenario"],
               violation=dict(cls=cls, msg=(r.get("msg") or res.get("msg"))),
               reproduced=vclass(r) == cls and vclass(r2) == cls,
               identical_event_log=r.get("digest") == r2.get("digest"),
               digest=r.get("digest"), minimise_trials=tried, confirmed_from=how,
               plan=final, log=r.get("log"))
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path, doc


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    srv = Server(doc["property"])
    r = srv.run(doc["plan"], log=True, timeout=130)
    srv.close()
    print(json.dumps({k: r.get(k) for k in ("status", "cls", "msg", "digest")}, indent=1))
    for line in r.get("log") or []:
        print("  ", line)
    if vclass(r) is not None:
        same = vclass(r) == doc["violation"]["cls"]
        print(f"replay: {'same violation class' if same else 'DIFFERENT violation'}; "
              f"event log {'identical' if r.get('digest') == doc.get('digest') else 'differs'}")
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    return 0 if r["status"] == "ok" else 2


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    sys.path.insert(0, HERE)
    from sim import registry_meta as meta

    m = meta.PROPS[prop]
    nruns = m["runs"][tier]
    budget = m.get("budget", {}).get(tier, 120 if tier == "quick" else 780)
    if os.environ.get("VERIF_RUNS"):
        nruns = int(os.environ["VERIF_RUNS"])
    nw = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 4)
    print(f"property={prop} VERIF_SEED={seed} tier={tier} runs={nruns} workers={nw}", flush=True)
    t0 = time.monotonic()
    procs = []
    for w in range(nw):
        procs.append(subprocess.Popen(
            sim_cmd("explore", prop, tier, seed, w, nw, nruns, budget), cwd=HERE, env=env(), text=True,
            stdout=subprocess.PIPE,
            stderr=None if os.environ.get("VERIF_DEBUG") else subprocess.PIPE))
    import selectors

    sel = selectors.DefaultSelector()
    for p in procs:
        sel.register(p.stdout, selectors.EVENT_READ, p)
    fired, probes, outcomes, scn_runs = (collections.Counter() for _ in range(4))
    inters, digests, nontriv = set(), set(), set()
    runs, sim_s, steps, preempt = 0, 0.0, 0, 0
    samples, bad, harness, known_hits = [], [], [], collections.Counter()
    known = known_findings(prop)
    dump = open(os.environ["VERIF_DUMP"], "w") if os.environ.get("VERIF_DUMP") else None
    ended = 0
    first_bad = None
    t_start = None
    stop = False
    deadline = t0 + budget + 240
    while sel.get_map() and not stop:
        if time.monotonic() > deadline:
            harness.append("workers exceeded the wall budget")
            break
        for key, _ in sel.select(5):
            line = key.fileobj.readline()
            p = key.data
            if not line:
                sel.unregister(key.fileobj)
                continue
            r = json.loads(line)
            if r.get("ready"):
                t_start = t_start or time.monotonic()
                continue
            if r.get("end"):
                ended += 1
                continue
            runs += 1
            if dump:
                dump.write(f"{r['i']} {r['scenario']} {r['status']} {r.get('digest')} {r.get('inter')}\n")
            scn_runs[r["scenario"]] += 1
            fired.update(r.get("fired") or {})
            probes.update(r.get("probes") or {})
            sim_s += r.get("sim_s", 0)
            steps += r.get("steps", 0) or 0
            preempt += r.get("preemptions", 0) or 0
            outcomes[r["status"]] += 1
            if r.get("inter"):
                inters.add((r["scenario"], r["inter"]))
            if r.get("digest"):
                digests.add(r["digest"])
                if r.get("preemptions") or sum((r.get("fired") or {}).values()) or (r.get("probes") or {}).get("nontrivial"):
                    nontriv.add((r["digest"], r.get("inter")))
            if r["status"] == "ok":
                if r.get("plan") and len(samples) < 2:
                    samples.append(dict(run=r["i"], plan=clip(r["plan"]), digest=r["digest"],
                                        fired=r["fired"], preemptions=r.get("preemptions")))
            elif r["status"] == "harness":
                harness.append(f"run {r['i']}: " + r.get("msg", ""))
                if os.environ.get("VERIF_DEBUG"):
                    print(json.dumps(r.get("plan")))
                    print(r.get("msg"))
                stop = len(harness) >= 3
            else:
                k = match_known(known, r)
                if k is not None:
                    known_hits[k["id"]] += 1
                else:
                    bad.append(r)
                    first_bad = first_bad or time.monotonic()
        # a few more failing runs, in case the first cannot be shown again
        if bad and (len(bad) >= 4 or time.monotonic() > first_bad + 3):
            stop = True
    if not stop and ended < nw and not harness:
        harness.append("a worker ended early: " + " | ".join(
            (p.stderr.read() or "")[-600:] for p in procs if p.stderr and p.poll() not in (None, 0)))
    for p in procs:
        if p.poll() is None and (stop or harness):
            p.kill()
    for p in procs:
        try:
            p.wait(20)
        except subprocess.TimeoutExpired:
            p.kill()
    wall = time.monotonic() - t0
    explore_s = time.monotonic() - (t_start or t0)
    rc = 0
    viol_doc = None
    if bad:
        for r in sorted(bad, key=lambda r: r["i"]):
            print(f"run {r['i']} ({r['scenario']}): {vclass(r)}: {r.get('msg','')[:600]}", flush=True)
            path, viol_doc = report_violation(prop, seed, r["plan"], r, meta.DROPPABLE, known)
            if viol_doc["reproduced"]:
                break
        print(f"minimised ({viol_doc['minimise_trials']} trials, reproduced={viol_doc['reproduced']}): "
              f"{(viol_doc['violation']['msg'] or '')[:600]}")
        # reported only if it can be shown again from the file
        if viol_doc["reproduced"]:
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            rc = 1
        else:
            print("HARNESS ERROR: the violation did not reproduce from its replay file")
            rc = 2
    elif harness:
        print("HARNESS ERROR: " + harness[0][:8000])
        rc = 2
    elif runs < min(nruns, m.get("min_runs", 50)):
        print(f"HARNESS ERROR: only {runs} of {nruns} runs fitted the budget")
        rc = 2
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}" + (f" (seen {known_hits[k['id']]}x)" if known_hits[k["id"]] else ""))
    scn_info = m.get("scenarios", {})
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=runs, distinct_nontrivial=len(nontriv), rule=m["rule"],
            samples=samples or [clip(bad[0]["plan"])] if (samples or bad) else [],
            runs_per_hour=int(runs / max(explore_s, 1e-9) * 3600),
            seeds_per_hour=int(runs / max(explore_s, 1e-9) * 3600),
            simulated_seconds=round(sim_s, 3), faults_injected=dict(sorted(fired.items())),
            probes=dict(sorted(probes.items())), scheduling_points=steps, preemptions=preempt,
            distinct_interleavings=len(inters),
            interleaving_measure="hash of the sequence of (thread, code location, next thread) at every switch",
            distinct_event_logs=len(digests), runs_per_scenario=dict(scn_runs), outcomes=dict(outcomes),
            real_components=m["real"], stub_components=m["stubs"],
            known_findings_seen=dict(known_hits), workers=nw,
        ),
        assumptions=m.get("assumptions", []), wall_s=round(wall, 2), violations=len(bad))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{runs} runs, {len(nontriv)} distinct non-trivial, {len(inters)} interleavings, "
          f"{preempt} preemptions, faults {dict(fired)}, {wall:.1f} s -> exit {rc}")
    return rc


def clip(obj, n=4000):
    s = json.dumps(obj)
    return obj if len(s) <= n else s[:n] + "...(clipped)"


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
