"""Deterministic simulation core: seeded PRNG streams, virtual clock, event log,
fault plan, and a cooperative scheduler for real threads.

Everything a run does is a pure function of its *plan* (a JSON value) and of the
code under test.  A plan is generated from one integer seed; a recorded plan
(explicit schedule, explicit fault list) is what a replay file holds.

Real threads are used (the code under test keeps thread-local state), but only one
of them is ever released: each thread parks on a private lock and is released when
the scheduler picks it.  The points at which the scheduler may pick another thread
are every line or bytecode instruction executed in a traced source file (the code
under test, and the standard library's functools), every explicit `sim.point()`
of a workload, and every blocking lock operation or sleep.
"""

from __future__ import annotations

import _thread
import collections
import gc
import hashlib
import math
import os
import random
import sys
import threading
import time
import zlib

_real_alloc = _thread.allocate_lock
_real_monotonic = time.monotonic
REPO = os.environ.get("VERIF_REPO", "/repo")
PREFIXES = (os.path.join(REPO, "effectful") + os.sep,)


class Violation(Exception):
    """The property is broken. `cls` is a short stable class used by the minimiser."""

    def __init__(self, cls: str, msg: str):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg = cls, msg


class HarnessError(Exception):
    """The simulator, not the code under test, is at fault."""


def derive(*parts) -> random.Random:
    h = hashlib.sha256("\x1f".join(map(str, parts)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


# ----------------------------------------------------------------------------
# virtual time


class Clock:
    """Simulated clock. Every time function the code under test can reach reads it."""

    def __init__(self, epoch: float = 1_700_000_000.0):
        self.epoch = epoch
        self.mono = 1000.0
        self.wall_offset = 0.0
        self.slept = 0.0
        self.sleeps: list[float] = []

    def time(self):
        return self.epoch + self.mono - 1000.0 + self.wall_offset

    def advance(self, d):
        self.mono += max(0.0, d)
        self.slept += max(0.0, d)


# ----------------------------------------------------------------------------
# one run

_current: "Sim | None" = None


def current() -> "Sim | None":
    return _current


class Sim:
    def __init__(self, plan: dict):
        global _current
        self.plan = plan
        self.clock = Clock()
        self.log: list = []
        self.fired: collections.Counter = collections.Counter()
        self.probes: collections.Counter = collections.Counter()
        self.sched: Scheduler | None = None
        self._site_counts: collections.Counter = collections.Counter()
        self._faults = {}
        for f in plan.get("faults", ()):
            self._faults[(f["site"], f["nth"])] = f
        self.covers: set = set()
        _current = self

    # -- event log (never draws randomness, never reads a real clock)
    def event(self, *parts):
        self.log.append(parts)

    def probe(self, name):
        self.probes[name] += 1

    def digest(self) -> str:
        return hashlib.sha256(repr(self.log).encode("utf-8", "replace")).hexdigest()[:24]

    # -- faults: plan-driven; `nth` counts visits of a site
    def fault(self, site: str):
        n = self._site_counts[site]
        self._site_counts[site] = n + 1
        f = self._faults.get((site, n))
        if f is not None:
            self.fired[f["kind"]] += 1
            self.event("fault", site, n, f["kind"])
        return f

    def point(self, where="point"):
        s = self.sched
        if s is not None:
            s.point(where)


# ----------------------------------------------------------------------------
# scheduler


class Task:
    __slots__ = ("tid", "name", "fn", "baton", "steps", "state", "outcome", "thread",
                 "wake", "blocked_on", "prio", "countdown", "hooked")

    def __init__(self, tid, name, fn):
        self.tid, self.name, self.fn = tid, name, fn
        self.baton = _real_alloc()
        self.baton.acquire()
        self.steps = 0
        self.state = "new"
        self.outcome = None
        self.thread = None
        self.wake = 0.0
        self.blocked_on = None
        self.prio = 0
        self.countdown = 0
        self.hooked = False


_tasks_by_ident: dict[int, tuple["Scheduler", Task]] = {}


def _me():
    return _tasks_by_ident.get(_thread.get_ident())


class Deadlock(Violation):
    def __init__(self, msg):
        super().__init__("deadlock", msg)


class Scheduler:
    """policy: {"kind": "serial" | "random" | "pct" | "site" | "explicit", ...}

    random:   at every point preempt with probability p
    pct:      strict random priorities, `depth` priority changes in a `horizon`
    site:     preempt with probability p at a random subset (fraction q) of code sites
    explicit: {"switches": [[how, tid, step, target], ...]} recorded decisions only,
              how = "p" (preemption) or "f" (the thread ended, blocked or slept)
    """

    MAX_STEPS = 4_000_000

    def __init__(self, sim: Sim, policy: dict, traced: tuple[str, ...] = (),
                 opcodes: bool = False, trace: bool = True):
        self.sim = sim
        sim.sched = self
        self.policy = policy
        self.kind = policy["kind"]
        self.rng = derive("sched", policy.get("seed", 0))
        self.tasks: list[Task] = []
        self.current: Task | None = None
        self.switches: list = []
        self.explicit: dict = collections.defaultdict(collections.deque)
        if self.kind == "explicit":
            for how, tid, step, target in policy["switches"]:
                self.explicit[(how, tid, step)].append(target)
        self.traced_prefixes = PREFIXES + tuple(traced)
        self._sites: dict = {}
        self.opcodes = opcodes
        self.trace = trace
        self.done = _real_alloc()
        self.done.acquire()
        self.total = 0
        self.preemptions = 0
        self.cap = policy.get("cap", 3000) if self.kind != "explicit" else 1 << 60
        self.inter = hashlib.sha256()
        self.finished = False
        self.failure: BaseException | None = None
        if self.kind == "pct":
            hz = max(10, int(policy.get("horizon", 2000)))
            self.changes = {self.rng.randrange(hz) for _ in range(policy.get("depth", 3))}

    # -- set-up
    def spawn(self, name, fn, tid=None) -> Task:
        t = Task(len(self.tasks) if tid is None else tid, name, fn)
        t.prio = self.rng.random()
        t.countdown = self._gap()
        self.tasks.append(t)
        if self.current is not None:  # spawned from inside a task
            self._start(t)
        return t

    def _gap(self):
        """Steps until the next preemption: geometric with parameter p."""
        if self.kind != "random":
            return 1
        p = self.policy["p"]
        if p <= 0:
            return 1 << 60
        if p >= 1:
            return 1
        return max(1, int(math.log(max(self.rng.random(), 1e-300)) / math.log(1 - p)) + 1)

    def _start(self, t: Task):
        ready = _real_alloc()
        ready.acquire()

        def main():
            ident = _thread.get_ident()
            _tasks_by_ident[ident] = (self, t)
            ready.release()
            t.baton.acquire()
            try:
                t.outcome = ("ok", t.fn())
            except BaseException as e:  # noqa: BLE001 - outcome of the simulated thread
                t.outcome = ("err", e)
            t.state = "done"
            _tasks_by_ident.pop(ident, None)
            self._leave(t)

        t.state = "ready"
        # A bare OS thread: the interpreter's own Thread bookkeeping (and its
        # locks) stays out of the simulation.
        t.thread = _thread.start_new_thread(main, ())
        ready.acquire()

    def run(self, timeout=40.0):
        if self.trace:
            _monitor(self.traced_prefixes, self.opcodes)
        for t in self.tasks:
            if t.state == "new":
                self._start(t)
        first = self._choose(None, [t for t in self.tasks if t.state == "ready"])
        self.current = first
        first.baton.release()
        if not self.done.acquire(True, timeout):
            raise HarnessError("hang: a simulated thread never reached a scheduling point\n" + self._stacks())
        if self.failure is not None:
            raise self.failure
        self.finished = True
        self.sim.sched = None
        return {t.name: t.outcome for t in self.tasks}

    def _stacks(self):
        import traceback

        frames = sys._current_frames()
        out = []
        for ident, (_, t) in _tasks_by_ident.items():
            if ident in frames:
                out.append(f"-- {t.name} ({t.state})\n" + "".join(traceback.format_stack(frames[ident])[-12:]))
        return "\n".join(out)[-6000:]

    # -- decisions
    def _choose(self, me: Task | None, cands: list[Task], how="f") -> Task:
        tid, step = (me.tid, me.steps) if me is not None else (-1, 0)
        if self.kind == "explicit":
            t = None
            q = self.explicit.get((how, tid, step))
            while q and t is None:
                want = q.popleft()
                t = next((c for c in cands if c.tid == want), None)
            if t is None:
                t = cands[0]
        elif self.kind == "serial":
            t = cands[0]
        elif self.kind == "pct":
            t = max(cands, key=lambda t: t.prio)
        else:
            t = cands[self.rng.randrange(len(cands))]
        self.switches.append([how, tid, step, t.tid])
        return t

    def _runnable(self, exclude=None):
        now = self.sim.clock.mono
        out = []
        for t in self.tasks:
            if t is exclude:
                continue
            if t.state == "ready":
                out.append(t)
            elif t.state == "sleep" and t.wake <= now:
                t.state = "ready"
                out.append(t)
        return out

    def _idle_advance(self) -> bool:
        sl = [t.wake for t in self.tasks if t.state == "sleep"]
        if not sl:
            return False
        d = min(sl) - self.sim.clock.mono
        self.sim.clock.advance(d)
        return True

    def _leave(self, me: Task):
        cands = self._runnable(me)
        while not cands and self._idle_advance():
            cands = self._runnable(me)
        if cands:
            nxt = self._choose(me, cands)
            self.inter.update(b"E%d>%d" % (me.tid, nxt.tid))
            self.current = nxt
            nxt.baton.release()
        else:
            if any(t.state == "blocked" for t in self.tasks):
                self.failure = Deadlock("threads blocked forever: " + ", ".join(
                    t.name for t in self.tasks if t.state == "blocked"))
            self.done.release()

    def _switch(self, me: Task, nxt: Task):
        self.current = nxt
        nxt.baton.release()
        me.baton.acquire()

    def _maybe(self, me: Task, code, pos, event):
        """Scheduling point of the running task `me`."""
        me.steps += 1
        self.total += 1
        if self.total > self.MAX_STEPS:
            if self.failure is None:
                self.failure = Violation("livelock", f"no progress after {self.total} steps")
                self.done.release()
            _real_alloc_forever()
        k = self.kind
        if self.preemptions >= self.cap:  # a run this long has had its share
            return
        if k == "random":
            me.countdown -= 1
            if me.countdown > 0:
                return
            me.countdown = self._gap()
        elif k == "explicit":
            if not self.explicit.get(("p", me.tid, me.steps)):
                return
        elif k == "serial":
            return
        elif k == "site":
            key = (id(code), pos)
            act = self._sites.get(key)
            if act is None:
                h = zlib.crc32(f"{self.policy['seed']}:{_where(code, pos, event)}".encode())
                act = self._sites[key] = (h % 10_000) < self.policy["q"] * 10_000
            if not act or self.rng.random() >= self.policy["p"]:
                return
        elif k == "pct":
            if self.total in self.changes:
                me.prio = -self.total
            cands = self._runnable(me)
            if not cands:
                return
            best = max(cands, key=lambda t: t.prio)
            if best.prio <= me.prio:
                return
        cands = self._runnable(me)
        if not cands or _importing():
            return
        nxt = self._choose(me, cands, "p")
        self.preemptions += 1
        self.inter.update(f"{me.tid}@{_where(code, pos, event)}>{nxt.tid};".encode())
        self._switch(me, nxt)

    def point(self, where="point"):
        m = _me()
        if m is None or m[0] is not self:
            return
        self._maybe(m[1], where, 0, "point")

    # -- blocking operations
    def block(self, me: Task, lock):
        me.state = "blocked"
        me.blocked_on = lock
        cands = self._runnable(me)
        while not cands and self._idle_advance():
            cands = self._runnable(me)
        if not cands:
            self.failure = Deadlock("threads blocked forever: " + ", ".join(
                t.name for t in self.tasks if t.state == "blocked"))
            self.done.release()
            _real_alloc_forever()
        nxt = self._choose(me, cands)
        self.inter.update(b"B%d>%d" % (me.tid, nxt.tid))
        self._switch(me, nxt)

    def unblock(self, lock):
        for t in self.tasks:
            if t.state == "blocked" and t.blocked_on is lock:
                t.state = "ready"
                t.blocked_on = None

    def sleep(self, me: Task, d):
        me.state = "sleep"
        me.wake = self.sim.clock.mono + max(0.0, d)
        cands = self._runnable(me)
        while not cands:
            self._idle_advance()
            cands = self._runnable()
        if cands[0] is me and len(cands) == 1:
            me.state = "ready"
            return
        nxt = self._choose(me, cands)
        if nxt is me:
            return
        self.inter.update(b"S%d>%d" % (me.tid, nxt.tid))
        self._switch(me, nxt)


# ----------------------------------------------------------------------------
# scheduling points inside the code under test (sys.monitoring, local events only)

_TOOL = 4
_codes: dict = {}  # prefixes -> code objects of the code under test that exist now


def _where(code, pos, event):
    if event == "point":
        return str(code)
    if event == "opcode":
        return f"{code.co_qualname}+{pos}"
    return f"{code.co_qualname}:{pos - code.co_firstlineno}"


NOPREEMPT: set = set()  # files whose frames hold locks the scheduler cannot see


def _importing():
    """Is this thread inside an import (the interpreter holds the module's lock), or in
    another part that holds a lock of its own?"""
    f = sys._getframe(2)
    while f is not None:
        n = f.f_code.co_filename
        if n.startswith("<frozen importlib") or n in NOPREEMPT:
            return True
        f = f.f_back
    return False


def warm(*steps):
    """First uses of the library, so that modules it imports late are there before the runs; the runs judge failures."""
    for f in steps:
        try:
            f()
        except Exception:  # noqa: BLE001
            pass


def find_codes(prefixes):
    """Every code object of the code under test, reached from the live functions."""
    import types

    prefixes = tuple(prefixes)
    if prefixes in _codes:
        return _codes[prefixes]
    seen = {}

    def add(code):
        if id(code) in seen:
            return
        seen[id(code)] = code
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    for o in gc.get_objects():
        if type(o) is types.FunctionType:
            fn = o.__code__.co_filename
            if fn.startswith(prefixes) and "handlers/jax/numpy" not in fn:
                add(o.__code__)
    out = _codes[prefixes] = sorted(
        seen.values(), key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    return out


def _monitor(prefixes, opcodes):
    mon = sys.monitoring
    event = "opcode" if opcodes else "line"
    kind = mon.events.INSTRUCTION if opcodes else mon.events.LINE
    get_ident = _thread.get_ident
    tasks = _tasks_by_ident

    counts: dict = {}
    limit = 1500
    disable = mon.DISABLE

    def hook(code, pos):
        m = tasks.get(get_ident())
        if m is None:
            return
        t = m[1]
        if t.hooked:
            return
        key = (id(code), pos)
        counts[key] = n = counts.get(key, 0) + 1
        if n > limit:  # a hot loop: one location has had its share of this run
            return disable
        t.hooked = True
        try:
            m[0]._maybe(t, code, pos, event)
        finally:
            t.hooked = False

    if mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, "sim")
    mon.register_callback(_TOOL, kind, hook)
    for code in find_codes(prefixes):
        mon.set_local_events(_TOOL, code, kind)


def _real_alloc_forever():
    lk = _real_alloc()
    lk.acquire()
    lk.acquire()


# ----------------------------------------------------------------------------
# simulated locks (installed in the worker before the code under test is imported)


class SimLock:
    def __init__(self):
        self._real = _real_alloc()

    def acquire(self, blocking=True, timeout=-1):
        m = _me()
        if m is None:
            return self._real.acquire(blocking, timeout)
        sched, task = m
        while not self._real.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                sched.sleep(task, timeout)
                return self._real.acquire(False)
            sched.block(task, self)
        return True

    def release(self):
        self._real.release()
        m = _me()
        if m is not None:
            m[0].unblock(self)

    def locked(self):
        return self._real.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = _real_alloc()


class _Time:
    """Originals of the patched time functions."""

    pass


for _n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "sleep"):
    setattr(_Time, _n, staticmethod(getattr(time, _n)))


def install_seams():
    """Route locks and time through the simulator. Outside a run they fall through."""
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading.RLock = threading._PyRLock

    def sim_time():
        return _current.clock.time() if _current else _Time.time()

    def sim_time_ns():
        return int(_current.clock.time() * 1e9) if _current else _Time.time_ns()

    def sim_mono():
        return _current.clock.mono if _current else _Time.monotonic()

    def sim_mono_ns():
        return int(_current.clock.mono * 1e9) if _current else _Time.monotonic_ns()

    def sim_perf():
        return _current.clock.mono if _current else _Time.perf_counter()

    def sim_perf_ns():
        return int(_current.clock.mono * 1e9) if _current else _Time.perf_counter_ns()

    def sim_sleep(d):
        if _current is None:
            return _Time.sleep(d)
        _current.clock.sleeps.append(d)
        _current.event("sleep", round(float(d), 6))
        hook = getattr(_current, "on_sleep", None)
        if hook is not None:
            hook(d)
        m = _me()
        if m is None:
            _current.clock.advance(d)
        else:
            m[0].sleep(m[1], d)

    time.time, time.time_ns = sim_time, sim_time_ns
    time.monotonic, time.monotonic_ns = sim_mono, sim_mono_ns
    time.perf_counter, time.perf_counter_ns = sim_perf, sim_perf_ns
    time.sleep = sim_sleep


# ----------------------------------------------------------------------------
# plan helpers


def gen_policy(rng: random.Random, horizon=3000) -> dict:
    k = rng.random()
    seed = rng.getrandbits(32)
    if k < 0.35:
        return {"kind": "random", "p": rng.choice([0.3, 0.1, 0.03, 0.03, 0.01, 0.003, 0.001]), "seed": seed}
    if k < 0.75:
        return {"kind": "site", "q": rng.choice([0.005, 0.02, 0.05, 0.1]), "p": rng.choice([1.0, 0.5, 0.2]), "seed": seed}
    return {"kind": "pct", "depth": rng.choice([1, 2, 3, 5]), "horizon": rng.choice([200, 800, horizon]), "seed": seed}
