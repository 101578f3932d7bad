"""Worker: executes plans, each in a forked child, and reports outcomes.

modes
  explore PROP TIER SEED WIDX NW NRUNS BUDGET   -> one JSON line per run
  serve PROP                                    -> reads plans on stdin, one result line each
"""

from __future__ import annotations

import gc
import json
import os
import select
import signal
import sys
import time
import traceback

from . import core

core.install_seams()
T = core._Time

HANG_S = float(os.environ.get("VERIF_HANG_S", "60"))


def run_child(scn, plan: dict, want_log=False) -> dict:
    """Execute one plan in this (disposable) process."""
    gc.disable()
    sim = core.Sim(plan)
    res: dict = {"status": "ok"}
    try:
        scn.execute(plan, sim)
    except core.Violation as v:
        res = {"status": "violation", "cls": v.cls, "msg": v.msg[:4000]}
    except core.HarnessError as e:
        res = {"status": "harness", "msg": str(e)[:8000]}
    except BaseException as e:  # noqa: BLE001
        res = {"status": "harness", "msg": traceback.format_exc()[-3000:]}
        where = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if any(f.startswith(core.PREFIXES) for f in where) and not where[-1].startswith(os.path.dirname(__file__)):
            # no scenario expects an exception here: the library failed
            res = {"status": "violation", "cls": "unexpected-error", "msg": f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:]}
    sched = sim.sched or getattr(sim, "last_sched", None)
    core._current = None
    res.update(
        digest=sim.digest(),
        events=len(sim.log),
        fired=dict(sim.fired),
        probes=dict(sim.probes),
        sim_s=round(sim.clock.slept, 6),
    )
    if sched is not None:
        res.update(
            inter=sched.inter.hexdigest()[:24],
            steps=sched.total,
            preemptions=sched.preemptions,
            switches=sched.switches if (res["status"] != "ok" or want_log) else None,
        )
    if want_log:
        res["log"] = [repr(e)[:400] for e in sim.log[:2000]]
    return res


def forked(scn, plan: dict, want_log=False, timeout=None) -> dict:
    timeout = timeout or HANG_S
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            # nothing the code under test prints may reach the protocol stream
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            os.dup2(devnull, 1)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(devnull, 2)
            sys.setrecursionlimit(2000)
            out = json.dumps(run_child(scn, plan, want_log), default=repr).encode()
            off = 0
            while off < len(out):
                off += os.write(w, out[off:])
        except BaseException:  # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    end = T.monotonic() + timeout
    hung = False
    while True:
        left = end - T.monotonic()
        if left <= 0:
            hung = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            hung = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if hung:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
    _, st = os.waitpid(pid, 0)
    if hung:
        return {"status": "hang", "msg": f"run did not end within {timeout:.0f} s"}
    if not buf:
        return {"status": "harness", "msg": f"child ended without a result (wait status {st})"}
    try:
        return json.loads(buf.decode())
    except ValueError:
        return {"status": "harness", "msg": "unreadable child result"}


def load(prop: str):
    from . import registry

    return registry.scenarios_for(prop)


def pick_plan(prop, scns, seed, i, tier):
    """The plan of run i is a pure function of (VERIF_SEED, property, i)."""
    rng = core.derive(seed, prop, i)
    total = sum(w for _, w in scns)
    x = rng.random() * total
    for scn, w in scns:
        if x < w:
            break
        x -= w
    plan = scn.generate(rng, prop, tier)
    plan["scenario"] = scn.name
    plan["property"] = prop
    return scn, plan


def main(argv):
    mode, prop = argv[0], argv[1]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    scns = load(prop)
    by_name = {s.name: s for s, _ in scns}
    for s, _ in scns:
        s.setup()
    gc.collect()
    core.find_codes(core.PREFIXES)
    gc.freeze()
    if mode == "serve":
        print(json.dumps({"ready": True}), file=out)
        for line in sys.stdin:
            req = json.loads(line)
            plan = req["plan"]
            scn = by_name[plan["scenario"]]
            res = forked(scn, plan, want_log=req.get("log", False), timeout=req.get("timeout"))
            print(json.dumps(res), file=out)
        return
    tier, seed, widx, nw, nruns, budget = (
        argv[2], int(argv[3]), int(argv[4]), int(argv[5]), int(argv[6]), float(argv[7]))
    end = T.monotonic() + budget
    print(json.dumps({"ready": True}), file=out)
    i = widx
    while i < nruns and T.monotonic() < end:
        scn, plan = pick_plan(prop, scns, seed, i, tier)
        res = forked(scn, plan)
        if res["status"] == "hang":  # once more before believing it
            res2 = forked(scn, plan, timeout=2 * HANG_S)
            if res2["status"] != "hang":
                res = res2
        res["i"] = i
        res["scenario"] = scn.name
        if res["status"] != "ok" or i < 3:
            res["plan"] = plan
        print(json.dumps(res), file=out)
        i += nw
    print(json.dumps({"end": True}), file=out)


if __name__ == "__main__":
    main(sys.argv[1:])
