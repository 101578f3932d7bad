"""L09, L10: code written by the model, the type-check gate, and its source text.

The simulated model answers templates with functions and runs snippets in sessions. The
external type checker is a simulated process (it reads the very file it is given and
reports marked lines), which can fail to start, crash, be killed, print rubbish or be
interrupted; the disk under the temporary directory can fail too. Code announces when it
runs. Judged: which code ran, what each call returned or raised, temporary files, and the
source shown for every function generated so far."""

from __future__ import annotations

import ast
import builtins
import contextlib
import errno
import gc
import inspect
import io
import json
import linecache
import os
import shutil
import subprocess
import tempfile
import textwrap
import traceback

from .. import core, llm_world
from ..base import Scenario

# kind of checker/disk failure -> is the code still to be accepted (if it is good)?
FAULTS = {
    "spawn:FileNotFoundError": False, "spawn:PermissionError": False, "spawn:ENOMEM": False, "spawn:EAGAIN": False,
    "spawn:KeyboardInterrupt": None,
    "kill:-9": False, "kill:-9:partial": False, "kill:-11": False, "kill:-15:clean": False,
    "rc:2": False, "rc:2:json": False, "rc:3": False, "rc:127": False,
    "rc:1:nomodule": False, "rc:1:notes": True,
    "out:torn": False, "out:text": False, "out:nokeys": False, "out:number": False, "out:binary": False,
    "wait:KeyboardInterrupt": None, "wait:MemoryError": False, "wait:SystemExit": None,
    "mkdir:ENOSPC": False, "mkdir:EACCES": False, "open:ENOSPC": False, "open:EMFILE": False, "open:KeyboardInterrupt": None,
    "write:ENOSPC": False, "write:EIO": False, "close:EIO": False,
    "slow": True, "stderr": True, "elsewhere": True,
}


class World:
    def __init__(self, sim, plan, scratch, fx):
        self.sim, self.plan, self.scratch, self.fx = sim, plan, scratch, fx
        self.errors: list = []
        self.approved: dict = {}  # unit -> verdicts of completed checks of it
        self.units: dict = {}

    @property
    def t(self):
        return self.fx._local.state

    def note(self, *ev):
        self.sim.event(self.t["id"], *ev)

    # generated code runs
    def ran(self, n):
        self.note("ran", n)
        self.t["ran"].append(n)
        u = self.units.get(n)
        if u is None:
            raise core.Violation("stray-code", f"code with unknown mark {n!r} ran")
        if u.get("gated") and True not in self.approved.get(n, []):
            self.errors.append(("ungated", f"code {n} ran although no type check of it ended well: {self.approved.get(n)}; fault: {self.t.get('said')}"))
        if self.t["session"] is not None and u["kind"] == "snip":
            self.t["session"].append(n)
        self.sim.point("generated code")

    def keep(self, k, fn):
        self.t["kept"].append((k, fn))
        return "kept"

    # the model
    def model(self, *args, **kwargs):
        import litellm

        t = self.t
        msgs = kwargs.get("messages") or []
        t["req"].append([llm_world.norm_msg(m) for m in msgs])
        self.note("req", len(msgs))
        self.sim.point("model")
        if not t["script"]:
            raise core.Violation("extra-request", f"the model is asked once more than the script of call {t['cid']} allows for: {[llm_world.show_msg(llm_world.norm_msg(m)) for m in msgs][-3:]}")
        r = t["script"].pop(0)
        t["fault"] = r.get("fault")
        t["said"] = r.get("fault")
        t["replies"] += 1
        msg: dict = {"role": "assistant", "content": r.get("content")}
        if r.get("calls"):
            msg["content"] = None
            msg["tool_calls"] = [{"id": i, "type": "function", "function": {"name": n, "arguments": a}} for i, n, a in r["calls"]]
        return litellm.ModelResponse(id="r", choices=[{"index": 0, "message": msg, "finish_reason": "stop"}], model="m")

    def fire(self, site):
        """The pending fault of this reply, if it is of this site."""
        t = getattr(self.fx._local, "state", None)
        f = t and t.get("fault")
        if f and f.split(":")[0] in site:
            t["fault"] = None
            self.sim.fired[f] += 1
            return f
        return None


def raise_os(f):
    what = f.split(":")[1]
    if hasattr(errno, what):
        raise OSError(getattr(errno, what), what)
    raise {"FileNotFoundError": FileNotFoundError, "PermissionError": PermissionError, "KeyboardInterrupt": KeyboardInterrupt,
           "MemoryError": MemoryError, "SystemExit": SystemExit}[what](f)


def diag(line, sev, msg, file):
    return json.dumps({"file": file, "line": line, "column": 4, "message": msg, "hint": None, "code": "assignment", "severity": sev})


class Checker:
    """Stands for subprocess.Popen while a run is active: the type checker process."""

    def __init__(self, args, *a, **kw):
        w = llm_world._world
        self.w = w
        self.args, self.kw = args, kw
        self.returncode = None
        self.pid = 4242
        self.stdin = self.stdout = self.stderr = None
        self._text = bool(kw.get("text") or kw.get("universal_newlines") or kw.get("encoding") or kw.get("errors"))
        f = w.fire(("spawn",))
        if f:
            raise_os(f)
        files = [x for x in (args if isinstance(args, (list, tuple)) else str(args).split()) if isinstance(x, str) and x.endswith(".py") and os.path.isfile(x)]
        self.source, self.path = "", files[0] if files else "?"
        for x in files:
            with _real_open(x, encoding="utf-8") as fh:
                self.source += fh.read()
        if not files:
            w.errors.append(("checker-input", f"the type checker was given no file: {args}"))

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        if self.returncode is None:
            self.returncode = -9

    def communicate(self, input=None, timeout=None):
        w = self.w
        w.sim.point("type checker")
        f = w.fire(("kill", "rc", "out", "wait", "slow", "stderr", "elsewhere"))

        def diag(line, sev, msg):
            return globals()["diag"](line, sev, msg, self.path)

        lines = self.source.splitlines()
        out, bad = [], []
        for i, s in enumerate(lines, 1):
            if "TYPENOTE" in s:
                out.append(diag(i, "note", "revealed"))
            if "TYPERR" in s:
                out.append(diag(i, "error", "Incompatible types"))
                bad.append(i)
        status, err = (1 if out else 0), ""
        done = f is None or FAULTS[f] is True
        if f:
            k = f.split(":")
            if k[0] == "wait":
                raise_os(f)
            if k[0] == "slow":
                import time

                time.sleep(30.0)
            elif k[0] == "elsewhere":
                # modules that the file imports have errors of their own
                out += [globals()["diag"](i, "error", "Incompatible types", "lib/other.py") for i in range(1, len(lines) + 40)]
                status = 1
            elif k[0] == "stderr":
                err = "warning: something\n"
            elif k[0] == "kill":
                status = int(k[1])
                out = out[: len(out) // 2] if len(k) > 2 and k[2] == "partial" else []
            elif f == "rc:1:nomodule":
                status, out, err = 1, [], "python: No module named mypy\n"
            elif f == "rc:1:notes":
                status, out = 1, [*out, diag(1, "note", "hm")]
            elif k[0] == "rc":
                status = int(k[1])
                out = [diag(1, "note", "hm")] if len(k) > 2 else ["error: cannot go on" if status != 127 else ""]
            elif f == "out:torn":
                out = [*out, diag(1, "error", "x")]
                out[-1] = out[-1][: len(out[-1]) // 2]
            elif f == "out:text":
                out = [*out, "Segmentation fault (not really)"]
            elif f == "out:nokeys":
                out = ['{"error": "internal"}']
            elif f == "out:number":
                out = ["12"]
            elif f == "out:binary":
                out = ["\x00\x01\x02"]
        self.returncode = status
        w.note("checked", status)
        # what this check says about each piece of code in the file
        for n in marks(self.source):
            u = w.units.get(n)
            if u is None or u["sess"] != w.t["sess"]:
                continue
            ok = done and not u.get("bad")
            w.approved.setdefault(n, []).append(ok)
        # code of earlier snippets is what they were compiled from
        if w.t["session"] is not None:
            have = marks(self.source)
            want = [n for n in w.t["session"] if n not in have]
            if want:
                w.errors.append(("stale-session", f"code is checked without the snippets {want} that ran before it in the session (it sees {have})"))
            never = [n for i, n in w.t["rejected"] if n in have and i + 1 < w.t["replies"] and n not in w.t["again"]]
            if never:
                w.errors.append(("rejected-in-session", f"code is checked together with rejected snippets {never}"))
        text = "\n".join(out) + ("\n" if out else "")
        return self._enc(text), self._enc(err)

    def _enc(self, s):
        return s if self._text else s.encode()

    def wait(self, timeout=None):
        if self.returncode is None:
            self.communicate()
        return self.returncode

    def poll(self):
        return self.returncode

    def kill(self):
        self.returncode = self.returncode if self.returncode is not None else -9

    terminate = kill


def marks(source):
    out = []
    try:
        tree = ast.parse(source)
    except SyntaxError:
        return out
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "ran" and n.args and isinstance(n.args[0], ast.Constant):
            out.append(n.args[0].value)
    return out


_real_open = builtins.open
_real_mkdir = os.mkdir
_real_popen = subprocess.Popen


class _File:
    """A file whose writes or close fail."""

    def __init__(self, f, fault):
        self.__dict__.update(f=f, fault=fault)

    def write(self, s):
        if self.fault.startswith("write"):
            self.f.write(s[: len(s) // 2])
            raise_os(self.fault)
        return self.f.write(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def close(self):
        self.f.close()
        if self.fault.startswith("close") and not self.__dict__.get("done"):
            self.__dict__["done"] = True
            raise_os(self.fault)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __getattr__(self, n):
        return getattr(self.f, n)


def _inside(path):
    w = llm_world._world
    try:
        return isinstance(w, World) and os.fspath(path).startswith(w.scratch)
    except TypeError:
        return False


def _open(path, mode="r", *a, **k):
    if _inside(path) and any(c in mode for c in "wax+"):
        w = llm_world._world
        f = w.fire(("open", "write", "close"))
        if f and f.startswith("open"):
            raise_os(f)
        fh = _real_open(path, mode, *a, **k)
        return _File(fh, f) if f else fh
    return _real_open(path, mode, *a, **k)


def _mkdir(path, *a, **k):
    if _inside(path):
        f = llm_world._world.fire(("mkdir",))
        if f:
            raise_os(f)
    return _real_mkdir(path, *a, **k)


class _Popen(_real_popen):
    def __new__(cls, *a, **k):
        if isinstance(llm_world._world, World):
            return Checker(*a, **k)
        return super().__new__(cls)


# ----------------------------------------------------------------------------


class CodeGen:
    def __init__(self, r, provider):
        self.r, self.unsafe = r, provider == "unsafe"

    def filler(self, n):
        r = self.r
        return r.choice([
            [f"c{n} = {r.randrange(99)}"], [f"s{n} = '''text {n}", "  more", "'''"], [f"# comment {n}", f"d{n} = [{n},", f"     {n + 1}]"],
            [f"def helper{n}(a: int) -> int:", f"    # helper {n}", f"    return a * {r.randrange(9)}"],
            [f"class K{n}:", f"    v = {n}", "", f"    def m(self) -> int:", f"        return {n}"] if self.unsafe else [f"t{n} = ({n}, 2)"],
            ["", ""], [f"k{n} = 'TYPENOTE'"], [f"for i in range(2):", f"    w{n} = i"],
        ])

    def bad_line(self, n):
        return self.r.choice([[f"z{n} = 'TYPERR'"], [f"def hb{n}(a: int) -> int:", "    return 'TYPERR'"], [f"if True:", f"    z{n} = 'TYPERR'"],
                              ["@(lambda g, w='TYPERR': g)", f"def hd{n}(a: int) -> int:", "    return a"]])

    def unit(self, n, kind, bad, marked=True):
        """(source, name of the function)"""
        r = self.r
        out: list = []
        pre = [self.filler(n * 10 + i) for i in range(r.choice([0, 0, 1, 2, 3]))]
        body = [f"mark{n} = ran({n})"] if marked else []
        where = r.choice(["first", "mid", "last"]) if bad == "type" else None
        if where == "first":
            out += self.bad_line(n)
        for p in pre[: len(pre) // 2]:
            out += p
        out += body
        if where == "mid":
            out += self.bad_line(n)
        for p in pre[len(pre) // 2:]:
            out += p
        name = r.choice(["f", "f", f"fn{n}", "make", "solve"])
        if kind == "fn":
            if bad == "arity":
                out += [f"def {name}(a: int, b: int, c: int) -> int:", f"    return {n}"]
            elif bad == "nofn":
                out += [f"{name} = {n}"]
            else:
                if r.random() < 0.2:
                    out += [f"def deco{n}(g: object) -> object:", "    return g", f"@deco{n}"]
                out += [f"def {name}(a: int) -> int:"]
                if r.random() < 0.4:
                    out += [f'    """Function {n}."""']
                if where == "last":
                    out += [f"    z{n} = 'TYPERR'"]
                if r.random() < 0.3:
                    out += [f"    # work {n}", ""]
                if r.random() < 0.4:
                    out += ["    if a == 77:", f"        raise ValueError('fail {n}')"]
                out += [f"    return a + {n}"]
        else:
            if where == "last":
                out += self.bad_line(n)
            if r.random() < 0.5:
                out += [f"def f{n}(a):", f"    return a + {n}  # of {n}"]
                if self.unsafe and r.random() < 0.6:
                    out += ["import inspect", f"print('SRC', inspect.getsource(f{n}), 'END')"]
        if bad == "syntax":
            at = r.randrange(len(out) + 1)
            with contextlib.suppress(SyntaxError):
                ast.parse("\n".join([*out[:at], "def = 3", *out[at:]]))
                at = len(out)  # it was inside a string
            out.insert(at, "def = 3")
        if bad == "star":
            out.insert(0, r.choice(["from math import *", "from __future__ import annotations"]))
        if r.random() < 0.15:
            # what the model always starts with
            out[:0] = ["# " + "=" * 120, "# " + "generated code, " * 20, ""]
        src = "\n".join(out)
        if r.random() < 0.3:
            src += "\n"
        return src, name


class Gate(Scenario):
    name = "gate"
    groups = ("llm",)

    def setup(self):
        llm_world.setup()
        from ..fixtures import synth  # noqa: F401

        builtins.open = io.open = _open
        os.mkdir = _mkdir
        subprocess.Popen = _Popen
        import effectful.handlers.llm.evaluation
        import RestrictedPython  # noqa: F401

    def generate(self, rng, prop, tier):
        r = rng
        nt = r.choice([1, 1, 2, 2, 3]) if prop == "L10" else r.choice([1, 1, 1, 2])
        plan = {"provider": r.choice(["unsafe", "unsafe", "restricted"]), "retry": r.choice([None, 1, 2, 3, 4]), "tb": r.random() < 0.5,
                "threads": [], "policy": core.gen_policy(r, 15000), "opcodes": nt > 1 and r.random() < 0.4, "units": {}, "gc": r.random() < 0.6}
        cg = CodeGen(r, plan["provider"])
        n = 0
        pf = 0.35 if prop == "L09" else 0.12
        pb = 0.3 if prop == "L09" else 0.25
        for t in range(nt):
            steps: list = []
            for _ in range(r.choice([2, 3, 4, 6]) if nt < 3 else r.choice([2, 3])):
                x = r.random()
                cid = len(steps) + 100 * t
                if steps and x < (0.3 if prop == "L10" else 0.1):
                    steps.append({"k": r.choice(["drop", "drop", "show", "gc"]), "cid": cid, "i": r.randrange(6)})
                    continue
                if x < 0.72:
                    tpl = r.choice(["make", "make", "make_two", "inner", "build"])
                else:
                    tpl = r.choice(["chat", "work"])
                replies = []
                sess = f"{t}.{cid}"

                used: list = []

                def new(kind, gated=True):
                    nonlocal n
                    again = [m for m in used if m in [x for rep in replies for x in rep.get("fns") or rep.get("snippets") or ()]]
                    if gated and again and tpl != "make_two" and r.random() < 0.25:
                        return r.choice(again)  # the very same code once more
                    n += 1
                    used.append(n)
                    bad = None
                    if r.random() < pb:
                        bad = r.choice(["type", "type", "type", "syntax", "star"] + (["arity", "nofn"] if kind == "fn" else []))
                    if bad == "star" and not gated:
                        bad = None
                    src, name = cg.unit(n, kind, bad, gated)
                    plan["units"][str(n)] = {"src": src, "name": name, "bad": bad, "kind": kind, "gated": gated, "sess": sess}
                    return n

                for _ in range(r.choice([1, 1, 2, 3, 4])):
                    rep: dict = {"fault": r.choice(list(FAULTS)) if r.random() < pf else None}
                    if tpl in ("chat", "work"):
                        x = r.random()
                        if x < 0.15:
                            rep["keep"] = [new("fn", gated=False)]
                            rep["fault"] = None
                        else:
                            rep["snippets"] = [new("snip") for _ in range(r.choice([1, 1, 2]))]
                    else:
                        rep["fns"] = [new("fn") for _ in range(2 if tpl == "make_two" else 1)]
                    replies.append(rep)
                steps.append({"k": "call", "cid": cid, "t": tpl, "replies_list": replies})
            plan["threads"].append({"id": t, "steps": steps})
        return plan

    def execute(self, plan, sim):
        from effectful.handlers.llm import completions as c
        from effectful.handlers.llm.completions import LiteLLMProvider, PythonRepl, RetryLLMHandler
        from effectful.handlers.llm.evaluation import RestrictedEvalProvider, UnsafeEvalProvider
        from effectful.ops.semantics import fwd, handler

        import tenacity

        from ..fixtures import synth as fx

        scratch = tempfile.mkdtemp(prefix="effectful-sim-")
        tempfile.tempdir = scratch
        w = World(sim, plan, scratch, fx)
        w.units = {int(k): v for k, v in plan["units"].items()}
        llm_world._world = w
        evalp = UnsafeEvalProvider() if plan["provider"] == "unsafe" else RestrictedEvalProvider()
        provider, repl = LiteLLMProvider(model="m"), PythonRepl()
        retry = RetryLLMHandler(stop=tenacity.stop_after_attempt(plan["retry"]), include_traceback=plan["tb"]) if plan["retry"] else None
        limit = plan["retry"] or 1
        only = {c.collect_tools: lambda env: {k: v for k, v in fwd().items() if k in ("exec_code", "keep")}}

        def unit_ok(n, fault):
            u = w.units[n]
            if u["bad"] == "type" and not u["gated"]:
                return True
            if u["bad"]:
                return None if u["gated"] and fault and FAULTS[fault] is None else False
            return True if not u["gated"] else FAULTS.get(fault, True) if fault else True

        def decide(rep):
            """outcome of decoding a reply: True, False or None (interrupted)"""
            ns = rep.get("fns") or rep.get("snippets") or rep.get("keep")
            f = rep.get("fault")
            for n in ns:
                if w.units[n]["bad"] in ("syntax", "star", "arity", "nofn"):
                    # rejected before the checker is asked
                    if "fns" in rep and len(ns) > 1:
                        return "any"
                    return False
                ok = unit_ok(n, f)
                if f and FAULTS[f] is not True and len(ns) > 1 and "fns" in rep:
                    return "any" if FAULTS[f] is None else False
                if ok is not True:
                    return ok
                f = None
            return True

        def content(rep):
            if "fns" in rep:
                return [{"module_code": w.units[n]["src"]} for n in rep["fns"]]

        def run_call(t, st, step, agent):
            tpl, cid = step["t"], step["cid"]
            st.update(cid=cid, ran=[], req=[], replies=0, fault=None, said=None, rejected=[], kept=[])
            st["sess"] = f"{t['id']}.{cid}"
            st["session"] = [] if tpl in ("chat", "work") else None
            script = []
            exp: list = []  # per reply: outcome
            result = None
            k = 0
            for rep in step["replies_list"]:
                if tpl in ("chat", "work"):
                    if "keep" in rep:
                        n = rep["keep"][0]
                        calls = [(f"k{n}", "keep", json.dumps({"k": n, "fn": {"module_code": w.units[n]["src"]}}))]
                    else:
                        calls = [(f"x{n}", "exec_code", json.dumps({"code": w.units[n]["src"]})) for n in rep["snippets"]]
                    script.append({"calls": calls, "fault": rep["fault"]})
                else:
                    v = content(rep)
                    script.append({"content": json.dumps({"value": v if tpl == "make_two" else v[0]}), "fault": rep["fault"]})
            # what has to happen
            tries, used, end, unsure = 0, 0, None, False
            for i, rep in enumerate(step["replies_list"]):
                d = decide(rep)
                used = i + 1
                if d == "any":
                    unsure = True
                    break
                if d is None:
                    end = "interrupted"
                    break
                if d is False:
                    tries += 1
                    if tries >= limit:
                        end = "error"
                        break
                    continue
                tries = 0
                if tpl in ("chat", "work"):
                    continue
                end = i
                break
            if tpl in ("chat", "work") or (end is None and not unsure):
                good = {"content": "done"} if tpl in ("chat", "work") else None
                if good is None:
                    u = st["spare"]
                    good = {"content": json.dumps({"value": [{"module_code": u}, {"module_code": u}] if tpl == "make_two" else {"module_code": u}})}
                script.append({**good, "fault": None})
                if end is None:
                    end = "spare" if tpl not in ("chat", "work") else "done"
            st["script"] = script if not unsure else script + [{"content": "done" if tpl in ("chat", "work") else "nonsense"}] * 20
            f = getattr(agent, tpl) if tpl in ("build", "work") else getattr(fx, tpl)
            err, val = None, None
            ns = [n for rep in step["replies_list"] for n in rep.get("snippets", ())]
            st["again"] = {n for n in ns if ns.count(n) > 1}
            st["rejected"] = [(i, n) for i, rep in enumerate(step["replies_list"]) if decide(rep) is False for n in rep.get("snippets", ())]
            try:
                val = f(cid, "h")
            except core.Violation:
                raise
            except BaseException as e:  # noqa: BLE001
                err = e
            w.note("end", cid, type(err).__name__ if err else "ok")
            left = [x for x in os.listdir(scratch)]
            if left and len(plan["threads"]) == 1:
                raise core.Violation("temp-left", f"after call {cid} the temporary directory holds {left}; fault {st['said']}")
            if w.errors:
                raise core.Violation(*w.errors[0])
            what = f"call {cid} ({tpl}; replies {[(r.get('fns') or r.get('snippets') or r.get('keep'), [w.units[n]['bad'] for n in (r.get('fns') or r.get('snippets') or r.get('keep'))], r['fault']) for r in step['replies_list']]}, limit {limit})"
            if unsure:
                return
            if end == "interrupted":
                if not isinstance(err, (KeyboardInterrupt, SystemExit)):
                    raise core.Violation("interrupt-lost", f"{what} ended with {err!r}")
            elif end == "error":
                if not isinstance(err, Exception):
                    raise core.Violation("accepted", f"{what} ended with {err!r} {val!r} although its last reply cannot be accepted")
            elif err is not None:
                raise core.Violation("rejected", f"{what} failed: " + "".join(traceback.format_exception(err))[-1500:])
            if isinstance(end, int):
                rep = step["replies_list"][end]
                got = val if tpl == "make_two" else [val]
                if [g(1) for g in got] != [1 + n for n in rep["fns"]]:
                    raise core.Violation("wrong-function", f"{what}: the functions returned give {[g(1) for g in got]} instead of {[1 + n for n in rep['fns']]}")
                for n, g in zip(rep["fns"], got):
                    st["funcs"].append((n, w.units[n]["src"], w.units[n]["name"], g))
                del got
            elif end == "spare":
                for g in val if tpl == "make_two" else [val]:
                    st["funcs"].append((0, st["spare"], "spare", g))
            # exactly the accepted code ran
            want: list = []
            tries = 0
            for i, rep in enumerate(step["replies_list"][: used]):
                d = decide(rep)
                if d is True:
                    want += rep.get("fns") or rep.get("snippets") or []
            mine = [n for n in st["ran"] if w.units[n]["sess"] == st["sess"]]
            if tpl != "make_two" and mine != want:
                raise core.Violation("ran", f"{what}: pieces {mine} ran, {want} were accepted")
            for k, fn in st["kept"]:
                st["funcs"].append((k, w.units[k]["src"], w.units[k]["name"], fn))
                if fn(1) != 1 + k:
                    raise core.Violation("wrong-function", f"{what}: the tool got a function giving {fn(1)} instead of {1 + k}")
            st["kept"] = []
            # snippets report the source they were compiled from
            for msg in st["req"][-1] if st["req"] else ():
                if msg["role"] == "tool" and msg["text"] and "SRC " in msg["text"] and msg["tcid"].startswith("x"):
                    n = int(msg["tcid"][1:])
                    if f"# of {n}" not in msg["text"]:
                        raise core.Violation("source", f"{what}: snippet {n} shows the source {msg['text']!r}")

        def check_sources(st, tid):
            for n, src, name, f in st["funcs"]:
                want = block(src, name)
                try:
                    got = inspect.getsource(f)
                except OSError as e:
                    raise core.Violation("source", f"no source for function {n}: {e}; compiled from {src!r}") from None
                if textwrap.dedent(got).rstrip() != want.rstrip():
                    raise core.Violation("source", f"the source shown for function {n} is {got!r}, it was compiled from {want!r}")
                whole = "".join(linecache.getlines(f.__code__.co_filename))
                if whole.rstrip("\n") != src.rstrip("\n"):
                    raise core.Violation("source", f"the file shown for function {n} is {whole!r}, it was compiled from {src!r}")
                if "== 77" in src:
                    try:
                        f(77)
                    except ValueError as e:
                        tb = "".join(traceback.format_exception(e))
                        if f"raise ValueError('fail {n}')" not in tb:
                            raise core.Violation("traceback", f"the error report of function {n} shows {tb!r}") from None
            sim.probe("sources")

        def show(st, step, i):
            if not st["funcs"]:
                return
            n, src, name, f = st["funcs"][i % len(st["funcs"])]
            st.update(cid=step["cid"], ran=[], req=[], replies=0, fault=None, said=None, session=None, rejected=[], again=(), kept=[], sess="show")
            st["script"] = [{"content": "seen"}]
            fx.show(step["cid"], f)
            text = st["req"][0][-1]["text"]
            enc = json.loads(text.split("look at ", 1)[1])["module_code"]
            if enc.rstrip() != block(src, name).rstrip():
                raise core.Violation("re-encoded", f"the model is shown {enc!r} for function {n}, which was compiled from {block(src, name)!r}")
            sim.probe("shown")

        def body(t):
            st = fx._local.state = {"id": t["id"], "funcs": [], "spare": f"def spare(a: int) -> int:\n    # {t['id']}\n    return a + {t['id']}\n", "session": None, "sess": None}
            fx._local.world = w
            agent = fx.Maker()
            with contextlib.ExitStack() as stack:
                for h in (provider, evalp, retry, repl, only):
                    if h is not None:
                        stack.enter_context(handler(h))
                for step in t["steps"]:
                    if step["k"] == "call":
                        run_call(t, st, step, agent)
                    elif step["k"] == "drop" and st["funcs"]:
                        del st["funcs"][step["i"] % len(st["funcs"])]
                        if plan["gc"]:
                            gc.collect()
                        sim.probe("dropped")
                    elif step["k"] == "gc":
                        gc.collect()
                        linecache.checkcache()
                    elif step["k"] == "show":
                        show(st, step, step["i"])
                    check_sources(st, t["id"])
            return st

        multi = len(plan["threads"]) > 1
        s = core.Scheduler(sim, plan["policy"], opcodes=plan["opcodes"], trace=multi)
        sim.last_sched = s
        try:
            for t in plan["threads"]:
                s.spawn(f"T{t['id']}", lambda t=t: body(t), tid=t["id"])
            out = s.run()
            left = os.listdir(scratch)
        finally:
            tempfile.tempdir = None
            shutil.rmtree(scratch, ignore_errors=True)
        for name, (kind, v) in out.items():
            if kind == "err":
                raise v
        for name, (kind, st) in out.items():
            check_sources(st, "end")
            if st["funcs"]:
                sim.probe("nontrivial")
        if left:
            raise core.Violation("temp-left", f"at the end the temporary directory holds {left}")
        if w.approved:
            sim.probe("nontrivial")
        sim.probe(plan["provider"])


def block(src, name):
    """source text of the last function, decorators included"""
    tree = ast.parse(src)
    d = tree.body[-1]
    lo = d.decorator_list[0].lineno if d.decorator_list else d.lineno
    return "\n".join(src.splitlines()[lo - 1 : d.end_lineno])
