"""Simulated language model, simulated application, and the reference conversation
model that predicts, from a script alone, every request, tool run, retry, result and
memory of a conversation.

Nothing here looks at how the code under test is written: the predictions are made of
roles, texts, call identities, values and exceptions only."""

from __future__ import annotations

import contextlib
import functools
import io
import json
import os
import sys
import uuid

from . import core

_SETUP = False
_real_uuid1, _real_uuid4 = uuid.uuid1, uuid.uuid4


class AppError(Exception):
    pass


class AppInterrupt(BaseException):
    pass


EXCS = {
    "ValueError": ValueError, "RuntimeError": RuntimeError, "KeyError": KeyError, "TimeoutError": TimeoutError,
    "ConnectionError": ConnectionError, "AppError": AppError, "StopIteration": StopIteration,
    "AssertionError": AssertionError, "MemoryError": MemoryError, "TypeError": TypeError,
    "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "AppInterrupt": AppInterrupt,
    "GeneratorExit": GeneratorExit,
}


def make_exc(kind, label):
    e = EXCS[kind](f"«{label}»")
    e.label = label
    return e


_world = None  # the world of the current run


def setup():
    """Patch the model client, then import the code under test (once per worker)."""
    global _SETUP
    if _SETUP:
        return
    _SETUP = True
    os.environ["LITELLM_LOCAL_MODEL_COST_MAP"] = "True"
    import litellm

    real = litellm.completion

    @functools.wraps(real)
    def completion(*args, **kwargs):
        if _world is None:
            raise core.HarnessError("model called outside a run")
        return _world.model(*args, **kwargs)

    litellm.completion = completion

    def uuid1(node=None, clock_seq=None):
        # the standard algorithm, on the simulated clock (which may stand still)
        if core.current() is None:
            return _real_uuid1(node, clock_seq)
        ns = int(core.current().clock.time() * 1e9)
        ts = ns // 100 + 0x01B21DD213814000
        if uuid1.last is not None and ts <= uuid1.last:
            ts = uuid1.last + 1
        uuid1.last = ts
        seq = 0x1234 if clock_seq is None else clock_seq
        node = 0x0242AC110002 if node is None else node
        return uuid.UUID(fields=(ts & 0xFFFFFFFF, (ts >> 32) & 0xFFFF, (ts >> 48) & 0x0FFF,
                                 (seq >> 8) & 0x3F, seq & 0xFF, node), version=1)

    uuid1.last = None

    def uuid4():
        if core.current() is None:
            return _real_uuid4()
        c = uuid4.n = uuid4.n + 1
        return uuid.UUID(int=core.derive("uuid4", c).getrandbits(128), version=4)

    uuid4.n = 0
    uuid.uuid1, uuid.uuid4 = uuid1, uuid4

    import effectful.handlers.llm.completions
    import effectful.handlers.llm.evaluation
    import effectful.internals.runtime
    import effectful.internals.unification  # noqa: F401

    from .fixtures import convo, convo_kinds, convo_more  # noqa: F401

    # warm lazily imported parts of the libraries
    litellm.ModelResponse(id="w", choices=[{"index": 0, "message": {"role": "assistant", "content": "x"}, "finish_reason": "stop"}], model="m")


# ----------------------------------------------------------------------------
# templates of the application: name -> (prompt, return kind)

TEMPLATES = {
    "ask_text": ("Q{q} text: {x}", "str"),
    "ask_num": ("Q{q} number for {x} please", "int"),
    "ask_points": ("Q{q} points from {x}", "points"),
    "say": ("Q{q} {name} says {x}", "str"),
    "num": ("Q{q} {name} counts {x}", "int"),
    "find": ("Q{q} {name} finds {x}", "points"),
    "pick": ("Q{q} {name} picks {x}", "point"),
    "gist": ("Q{q} {name} gist of {x}", "str"),
    "report": ("Q{q} {name} reports {x}", "str"),
    "order": ("Q{q} {name} orders {x}", "int"),
    "Ranger.pick": ("Q{q} {name} picks again {x}", "point"),
}
KINDS = ["pair", "pairs", "table", "opt", "either", "color", "flag", "real", "cpx", "day", "model", "row", "pos", "shade",
         "out", "outs", "itema", "itemb", "entry", "groups", "pic", "pics"]
for _k in KINDS:
    TEMPLATES[f"ask_{_k}"] = ("Q{q} %s {x}" % _k, _k)
TEMPLATES["ask_pairs"] = ("Q{q} pairs {x}, in {{braces}}", "pairs")
TEMPLATES["ask_pic"] = ("Q{q} pic {x} to look at, called {x2}", "pic")
MODULES = {"convo": "Simulated application", "convo_more": "Another module", "convo_kinds": "A third module"}
PERSONAS = {"Clerk": "You are a clerk.", "Scout": "You are a scout.", "Ranger": "You are a ranger, a kind of scout.",
            "Chief": "You are the chief clerk."}
AGENT_CLASSES = {"Clerk": ["say", "num"], "Scout": ["find", "pick", "gist"],
                 "Ranger": ["report", "pick", "find", "gist"], "Chief": ["order", "say", "num"]}


def template(call, agents):
    """(prompt, return kind) of the template a call goes to"""
    if call["on"] is not None:
        k = f"{agents[call['on']]['cls']}.{call['t']}"
        if k in TEMPLATES:
            return TEMPLATES[k]
    return TEMPLATES[call["t"]]
DEFAULTS = {"str": "ok", "int": 7, "points": [[1, 2]], "point": [3, 4]}
TOOL_ARGS = {"add": ("a", "b"), "echo": ("s",), "points": ("ps",), "note": ("s",), "sub": (), "mix": ("p", "d", "n", "c", "z")}
# values of these kinds are written in a plan as the JSON a model sends for them
DEFAULTS |= {
    "pair": {"item_0": 1, "item_1": "x"}, "pairs": [{"item_0": 1, "item_1": "x"}], "table": {"a": 1}, "opt": 4,
    "either": "four", "color": "red", "flag": True, "real": 1.5, "cpx": {"real": 1.0, "imag": 2.0}, "day": "2024-01-02",
    "model": {"a": 1, "b": ["x"]}, "row": {"a": 1, "b": ["x"]}, "pos": {"a": 1, "b": "x"}, "shade": "dark",
    "out": {"ins": [{"x": 1}], "d": {"a": 2}, "o": None}, "outs": {"k": {"ins": [], "d": {}, "o": 5}},
    "pic": [1, 2, 3, 1], "pics": [[1, 2, 3, 1]], "entry": {"type": "file", "name": "x"}, "groups": {"type": [1]},
    "itema": {"n": 1, "s": "x"}, "itemb": {"n": 2, "s": "y"},
}


def kind_value(kind, r):
    """A JSON value a model may send for the kind."""
    i, s = r.choice([0, 1, -5, 10**12]), r.choice(["x", "", "two\nlines", "{q}", "ü–©", "null", "7"])
    out = lambda: {"ins": [{"x": r.randrange(9)} for _ in range(r.randrange(3))], "d": {"a": 2, "": i} if i else {}, "o": r.choice([None, 5])}
    return {
        "pair": lambda: {"item_0": i, "item_1": s},
        "pairs": lambda: [{"item_0": i + j, "item_1": s} for j in range(r.randrange(3))],
        "table": lambda: r.choice([{}, {"a": i}, {s: 1, "zz": i}]),
        "opt": lambda: r.choice([None, i]), "either": lambda: r.choice([i, s]),
        "color": lambda: r.choice(["red", "green"]), "flag": lambda: r.random() < 0.5,
        "real": lambda: r.choice([1.5, -0.25, 3.0, 1e30]), "cpx": lambda: {"real": float(r.choice([0, 1, -2.5])), "imag": r.choice([1.0, 0.5])},
        "day": lambda: f"20{r.randrange(10, 99)}-0{r.randrange(1, 9)}-1{r.randrange(9)}",
        "model": lambda: {"a": i, "b": [s, "y"][: r.choice([1, 2])]}, "row": lambda: {"a": i, "b": [s, "y"][: r.randrange(3)]},
        "pos": lambda: {"a": i, "b": s}, "shade": lambda: r.choice(["dark", "light"]),
        "out": out, "outs": lambda: {k: out() for k in ["k", s][: r.randrange(3)]},
        "entry": lambda: {"type": r.choice(["file", "text", "document", "dir", s]), "name": s},
        "pic": lambda: [r.randrange(256), i % 256, 7, r.choice([1, 2])], "pics": lambda: [[j, r.randrange(256), 7, 1] for j in range(r.randrange(3))],
        "groups": lambda: {k: [1, 2][: r.randrange(3)] for k in ["type", "x", s][: r.randrange(4)]},
        "itema": lambda: {"n": i, "s": s}, "itemb": lambda: {"n": i, "s": s},
    }[kind]()


@functools.lru_cache(None)
def _picture_url(p, part):
    import base64

    from PIL import Image

    buf = io.BytesIO()
    im = Image.new("RGB", (p[3], p[3]), p[:3])
    if part < 1:  # enough contents for a part to be missing
        im = Image.frombytes("RGB", (24, 24), bytes((i * i * 7 + i // 5) % 251 for i in range(24 * 24 * 3)))
    im.save(buf, format="PNG")
    raw = buf.getvalue()
    return "data:image/png;base64," + base64.b64encode(raw[: int(len(raw) * part)]).decode()


def picture_url(p, part=1.0):
    return _picture_url(tuple(p), part)


def picture(p):
    return {"type": "image_url", "image_url": {"detail": "auto", "url": picture_url(p)}}


def show_picture(url):
    """How a message's picture is written in a normalised text."""
    import base64

    from PIL import Image

    try:
        im = Image.open(io.BytesIO(base64.b64decode(url.split(",")[1])))
        return f"<picture {[*im.convert('RGB').getpixel((0, 0)), im.size[0]]}>"
    except Exception as e:  # noqa: BLE001
        return f"<no picture: {e!r}>"


def kind_bad(kind, r, u):
    """A JSON value that is none of the kind, and texts an honest report of that contains."""
    t = f"tok{u}"
    alts = {
        "pair": [{"item_0": t, "item_1": "x"}, {"item_0": 1}, {"item_0": 1, "item_1": "x", "item_2": 4}, {}, {"item_0": 1, "item_1": 5}],
        "pairs": [[{"item_0": 1, "item_1": "x"}, {"item_0": t, "item_1": "x"}], [[1, "x", 3]], {"item_0": 1, "item_1": "x"}],
        "table": [{"a": 1, "b": t}, [1], {"a": None}], "opt": [t, {}, [1]], "either": [{t: 1}, None, []],
        "color": ["yellow" + t, 1, None], "flag": [t, None, []], "real": [t, None, {}],
        "cpx": [{"real": 1.0}, {"real": t, "imag": 1.0}, {}], "day": [t, "2024-13-01", {}],
        "model": [{"b": ["x"]}, {"a": t, "b": ["x"]}, {"a": 1, "b": [1]}], "row": [{"b": ["x"]}, {"a": t, "b": ["x"]}, {"a": 1, "b": [1]}],
        "pos": [{"b": "x"}, {"a": t, "b": "x"}, {"a": 1, "b": "x", "c": 3}, {"a": 1, "b": 2}],
        "shade": [t, "DARK", None], "out": [{"ins": [{"x": t}], "d": {}}, {"ins": [], "o": 1}, {"ins": [], "d": {"a": t}, "o": 1}, {"ins": [{"x": 1}], "d": {}, "o": "z"}],
        "outs": [{"k": {"ins": [{"x": t}], "d": {}}}, {"k": None}, {"k": {"ins": []}}],
        "pic": [t, {"type": "image_url", "image_url": {"url": f"http://{t}"}}, {"type": "image_url", "image_url": {"url": "data:image/png;base64,AAAA"}},
                *[{"type": "image_url", "image_url": {"url": picture_url([5, 6, 7, 9], 0.7)}}] * 2],
        "pics": [picture([1, 2, 3, 1]), [picture([1, 2, 3, 1]), t], [{"type": "image_url", "image_url": {"url": picture_url([5, 6, 7, 9], 0.7)}}]],
        "entry": [{"type": "file"}, {"type": "file", "name": [t]}, []], "groups": [{"type": [t]}, {"x": 1}, None],
        "itema": [{"n": 1}, {"n": t, "s": ""}], "itemb": [{"s": "x"}, {"n": t, "s": ""}],
    }[kind]
    v = r.choice(alts)
    return v, ([t] if t in json.dumps(v) else [])


def build(kind, v):
    """The Python value a JSON value of the kind stands for."""
    import datetime

    from .fixtures import convo_kinds as ck

    out = lambda o: ck.Out([ck.In(i["x"]) for i in o["ins"]], dict(o["d"]), o.get("o"))
    pair = lambda p: (p["item_0"], p["item_1"])
    def pic(v):
        from PIL import Image

        return Image.new("RGB", (v[3], v[3]), tuple(v[:3]))

    return {
        "pic": pic, "pics": lambda v: [pic(p) for p in v],
        "pair": pair, "pairs": lambda v: [pair(p) for p in v], "cpx": lambda v: complex(v["real"], v["imag"]),
        "day": datetime.date.fromisoformat, "model": lambda v: ck.Model(a=v["a"], b=list(v["b"])),
        "row": lambda v: {"a": v["a"], "b": list(v["b"])}, "pos": lambda v: ck.Pos(**v), "shade": ck.Shade, "out": out,
        "outs": lambda v: {k: out(o) for k, o in v.items()}, "itema": lambda v: ck.ItemA(**v), "itemb": lambda v: ck.ItemB(**v),
    }.get(kind, lambda v: v)(v)


def mix_args(a):
    """The arguments the mix tool runs with."""
    return [build("pair", a["p"]), a["d"], a.get("n", 3), a.get("c", "red"), build("cpx", a["z"]) if "z" in a else 0j]


def text_form(kind, v):
    """A value of the kind in a prompt, or as the result of a tool."""
    if kind == "pic":
        return f"<picture {v}>"
    if kind == "pics":
        return "[" + ", ".join(f"<picture {p}>" for p in v) + "]"
    j = as_json(kind, v)
    return j if isinstance(j, str) else json.dumps(j)


def prompt_value(kind, x):
    """What stands in a prompt for {x}."""
    t = text_form(kind, x) if kind in KINDS else x if isinstance(x, str) else json.dumps(x)
    if kind == "either":
        return f"{t!r:>12} or {t}"
    if kind == "color":
        return "[%s]" % t.rjust(8)
    if kind == "day":
        return t.ljust(12, "*")
    if kind == "model":
        return f"{t} with {x['b'][0]} and {x['a']}"
    if kind == "row":
        return f"{t} with {x['a']}"
    return t


def as_json(kind, v):
    if kind == "points":
        return [{"x": a, "y": b} for a, b in v]
    if kind == "point":
        return {"x": v[0], "y": v[1]}
    if kind == "pic":
        return picture(v)
    if kind == "pics":
        return [picture(p) for p in v]
    return v


def as_repr(kind, v):
    """repr of the decoded value."""
    if kind == "points":
        return repr([("P", a, b) for a, b in v])
    if kind == "point":
        return repr(("P", v[0], v[1]))
    if kind in KINDS:
        return norm_value(build(kind, v))
    return repr(v)


def norm_value(v):
    import dataclasses
    import enum

    import pydantic

    from .fixtures import convo_kinds as ck
    from .fixtures.convo import Point

    def w(x):
        if hasattr(x, "getpixel"):
            try:
                return ("picture", *x.convert("RGB").getpixel((0, 0)), x.size[0])
            except OSError as e:
                return ("no picture", str(e))
        if isinstance(x, Point):
            return ("P", x.x, x.y)
        if type(x) in (ck.ItemA, ck.ItemB):
            return ("ItemA" if type(x) is ck.ItemA else "ItemB", w(x.n), w(x.s))
        if dataclasses.is_dataclass(x) and not isinstance(x, type):
            return (type(x).__name__, *[(f.name, w(getattr(x, f.name))) for f in dataclasses.fields(x)])
        if isinstance(x, pydantic.BaseModel):
            return (type(x).__name__, [(k, w(v)) for k, v in x])
        if isinstance(x, enum.Enum):
            return (type(x).__name__, x.name)
        if isinstance(x, tuple):
            return (type(x).__name__, *[w(i) for i in x])
        if isinstance(x, dict):
            return {k: w(v) for k, v in x.items()}
        if isinstance(x, list):
            return [w(i) for i in x]
        return x

    return repr(w(v))


def text_of(content):
    if content is None:
        return None
    if isinstance(content, str):
        return content
    return "".join(show_picture(b["image_url"]["url"]) if b.get("type") == "image_url" else b.get("text", f"<{b.get('type')}>")
                   for b in content)


def norm_msg(m):
    tcs = m.get("tool_calls") or []
    return {
        "role": m["role"],
        "text": text_of(m.get("content")),
        "tcid": m.get("tool_call_id"),
        "tcalls": [[t["id"], t["function"]["name"], t["function"]["arguments"]] for t in tcs],
        "id": m.get("id"),
    }


def show_msg(m):
    t = m["text"]
    return f"{m['role']}" + (f"[{m['tcid']}]" if m["tcid"] else "") + f":{t[:60]!r}" if t is not None else f"{m['role']}:calls{[c[0] for c in m['tcalls']]}"


# ----------------------------------------------------------------------------
# expected messages


class Exp:
    """What a message must look like."""

    def __init__(self, role, text=None, has=(), hasnot=(), tcid=None, tcalls=(), anytext=False,
                 prefix="", suffix=""):
        self.role, self.text, self.has, self.hasnot = role, text, list(has), list(hasnot)
        self.tcid, self.tcalls, self.anytext = tcid, [list(t) for t in tcalls], anytext
        self.prefix, self.suffix = prefix, suffix
        self.prefix, self.suffix = prefix, suffix

    def why_not(self, m):
        if m["role"] != self.role:
            return f"role {m['role']!r} instead of {self.role!r}"
        if m["tcid"] != self.tcid:
            return f"answers call {m['tcid']!r} instead of {self.tcid!r}"
        if m["tcalls"] != self.tcalls:
            return f"carries tool calls {m['tcalls']!r} instead of {self.tcalls!r}"
        if not self.anytext:
            if m["text"] != self.text:
                return f"text {m['text']!r} instead of {self.text!r}"
        else:
            for h in self.has:
                if h not in (m["text"] or ""):
                    return f"text lacks {h!r}: {(m['text'] or '')[:300]!r}"
            if not (m["text"] or "").startswith(self.prefix):
                return f"text starts {(m['text'] or '')[:300]!r} instead of {self.prefix!r}"
            if not (m["text"] or "").endswith(self.suffix):
                return f"text ends {(m['text'] or '')[-300:]!r} instead of {self.suffix!r}"
            for h in self.hasnot:
                if h in (m["text"] or ""):
                    return f"text contains {h!r}: {(m['text'] or '')[:300]!r}"
        return None

    def __repr__(self):
        return f"{self.role}[{self.tcid or ''}]:{self.text[:60] if self.text else self.has or self.tcalls}"


class Group:
    """Messages that may come in any order."""

    def __init__(self, exps):
        self.exps = exps


def match_messages(exp, got):
    """None or a description of the first difference."""
    i = 0
    flat = []
    for e in exp:
        flat += [e] if isinstance(e, Exp) else [e]
    for e in flat:
        if isinstance(e, Group):
            part = got[i : i + len(e.exps)]
            if len(part) < len(e.exps):
                return f"message {i}: {len(e.exps)} answers expected, {len(part)} messages left"
            left = list(e.exps)
            for j, m in enumerate(part):
                hit = next((x for x in left if x.why_not(m) is None), None)
                if hit is None:
                    return f"message {i + j}: {left[0].why_not(m)}"
                left.remove(hit)
            i += len(e.exps)
            continue
        if i >= len(got):
            return f"message {i} missing: {e!r}"
        w = e.why_not(got[i])
        if w:
            return f"message {i}: {w}"
        i += 1
    if i != len(got):
        return f"{len(got) - i} unexpected message(s) from position {i}: {show_msg(got[i])}"
    return None


def well_formed(msgs):
    """The request-independent part of L02."""
    if not msgs or msgs[0]["role"] != "system":
        return "the request does not start with a system message"
    if sum(m["role"] == "system" for m in msgs) != 1:
        return "the request has several system messages"
    ids = [m["id"] for m in msgs]
    if None in ids or len(set(ids)) != len(ids):
        return f"message identities are not pairwise distinct: {ids}"
    open_calls: list = []
    for i, m in enumerate(msgs):
        if m["role"] == "tool":
            if m["tcid"] not in open_calls:
                return f"message {i} answers {m['tcid']!r}, which is not an open tool call"
            open_calls.remove(m["tcid"])
        else:
            if open_calls:
                return f"tool calls {open_calls} are not answered before message {i} ({m['role']})"
            open_calls = [t[0] for t in m["tcalls"]]
    if open_calls:
        return f"tool calls {open_calls} are not answered before the request"
    return None


# ----------------------------------------------------------------------------
# scripts -> raw replies


def reply_raw(reply, kind):
    """(content, tool_calls) of the assistant message the simulated model sends."""
    k = reply["k"]
    if k == "final":
        v = reply.get("v", DEFAULTS[kind])
        return (v if kind == "str" else json.dumps({"value": as_json(kind, v)})), []
    if k == "bad":
        return reply["raw"], []
    if k == "empty":
        return reply.get("content"), []
    if k == "tools":
        out = []
        for tc in reply["calls"]:
            if "tmpl" in tc:  # a prompt template offered as a tool
                args = {"q": tc["nest"]["cid"], "x": tc["nest"]["x"]}
                if tc["nest"]["t"][4:] in KINDS:
                    args["x"] = as_json(tc["nest"]["t"][4:], args["x"])
            elif "code" in tc:
                args = {"code": tc["code"]}
            else:
                args = {"k": tc["k"], **tc["args"]}
            a = json.dumps(args)
            name = tc["tool"]
            bad = tc.get("bad")
            if bad == "json":
                a = a[:-1] + ', "tok%d' % tc["k"]
            elif bad == "unknown":
                name = f"nosuch{tc['k']}"
            elif bad == "extra":
                a = json.dumps({**args, f"extra{tc['k']}": 1})
            elif bad == "type":
                a = json.dumps({**args, "k": f"tok{tc['k']}"})
            elif bad == "missing":
                drop = required(tc)[-1]
                a = json.dumps({k2: v for k2, v in args.items() if k2 != drop})
            elif bad == "nested":
                a = json.dumps({**args, tc["at"]: tc["with"]})
            elif bad == "notobj":
                a = json.dumps([1])
            out.append([tc["id"], name, a])
        return reply.get("content"), out
    raise core.HarnessError(k)


def required(tc):
    return ["k", "p", "d"] if tc["tool"] == "mix" else ["k", *tc["args"]]


def bad_tokens(reply, tc):
    """Text any honest report of this decoding error contains."""
    if tc is None:
        return list(reply.get("tok", ()))
    bad = tc["bad"]
    k = tc["k"]
    if bad == "json":
        try:
            json.loads(reply_raw({"k": "tools", "calls": [tc]}, "str")[1][0][2])
        except ValueError as e:
            return [str(e)]
    if bad == "syntax":
        return ["yntax"]
    if bad == "unknown":
        return [f"nosuch{k}"]
    if bad == "extra":
        return [f"extra{k}"]
    if bad == "type":
        return [f"tok{k}"]
    if bad == "missing":
        return [required(tc)[-1]]
    if bad == "nested":
        return tc["tok"]
    return []


# ----------------------------------------------------------------------------
# the reference


class RefExc(Exception):
    def __init__(self, desc, catchable):
        self.desc, self.catchable = desc, catchable  # catchable: class for isinstance tests


def model_tools(plan):
    tools: dict = {}

    def walk(call):
        for r in call["script"]:
            for tc in r.get("calls", ()):
                tools[tc["k"]] = tc
                for sub in (tc, tc.get("do", {})):
                    if "nest" in sub:
                        walk(sub["nest"])
        for tc in call.get("subs", ()):
            tools[tc["k"]] = tc
            if "nest" in tc["do"]:
                walk(tc["do"]["nest"])

    for t in plan["threads"]:
        for c in t["calls"]:
            walk(c)
    return tools


class Ref:
    """Predicts one thread's history."""

    def __init__(self, plan, thread, model):
        self.plan, self.thread, self.modelname = plan, thread, model
        self.ev: list = []
        self.mem = {i: [] for i in range(len(plan["agents"]))}
        self.depth = 0
        self.faults = {(f["site"], f["nth"]): f for f in plan.get("faults", ())}
        self.seen: dict = {}
        self.now = 0.0
        self.tools = model_tools(plan)
        self.retry = thread.get("retry", plan["retry"]) if plan.get("own_retry") else plan["retry"]

    def fault(self, site):
        n = self.seen.get(site, 0)
        self.seen[site] = n + 1
        f = self.faults.get((site, n))
        if f:
            raise RefExc(("label", f"{site}#{n}"), EXCS[f["kind"]])

    def run(self):
        for call in self.thread["calls"]:
            self.top(call)
        return self.ev

    def top(self, call):
        try:
            v = self.call(call)
            self.ev.append(("ret", call["cid"], v[1]))
        except RefExc as e:
            self.ev.append(("exc", call["cid"], e.desc))
        if call["on"] is not None:
            self.ev.append(("hist", call["on"], list(self.mem[call["on"]])))

    def obs(self, cid, site):
        if self.plan["observer"]:
            self.fault(f"c{cid}.{site}")

    def call(self, call):
        """-> (kind, repr of the decoded value, python value)"""
        cid = call["cid"]
        prompt, kind = template(call, self.plan["agents"])
        agent = call["on"]
        self.ev.append(("call", cid))
        base = list(self.mem[agent]) if agent is not None else []
        conv = list(base)
        if not conv:
            self.obs(cid, "system.pre")
            conv.insert(0, self.system(call))
            self.obs(cid, "system.post")
        name = self.plan["agents"][agent]["name"] if agent is not None else ""
        self.obs(cid, "user.pre")
        x = prompt_value(kind, call["x"])
        conv.append(Exp("user", prompt.replace("{{", "{").replace("}}", "}").replace("{q}", "\x00q").replace("{name}", name)
                        .replace("{x}", "\x00x").replace("{x2}", f"{cid:>3}").replace("\x00q", str(cid)).replace("\x00x", x)))
        self.obs(cid, "user.post")
        script = iter(call["script"])
        session = RefSession(self, call)
        self.depth += 1
        try:
            while True:
                reply = self.assistant(call, kind, conv, script)
                if reply["k"] == "tools" and reply["calls"]:
                    for tc in reply["calls"]:
                        self.tool(call, conv, tc, session)
                    continue
                break
        finally:
            self.depth -= 1
        if self.depth == 0 and agent is not None:
            self.mem[agent] = conv
        v = reply.get("v", DEFAULTS[kind])
        return kind, as_repr(kind, v), v

    def system(self, call):
        """The system message speaks for the template's module and the agent's class."""
        t = call["t"]
        if call["on"] is None:
            mod, me = "convo_kinds" if t[4:] in KINDS else "convo", None
        else:
            me = self.plan["agents"][call["on"]]["cls"]
            mod = "convo_more" if t in ("report", "order") or (me, t) == ("Ranger", "pick") else "convo"
        return Exp("system", anytext=True, has=[MODULES[mod], *([PERSONAS[me]] if me else [])],
                   hasnot=[x for k, x in MODULES.items() if k != mod] + [x for k, x in PERSONAS.items() if k != me])

    def assistant(self, call, kind, conv, script):
        cid = call["cid"]
        self.obs(cid, "assistant.pre")
        r = self.retry
        seq = list(conv)
        start = self.now
        attempt = 0
        while True:
            attempt += 1
            self.obs(cid, "collect.pre")
            self.obs(cid, "completion.pre")
            reply = next(script, None) or {"k": "final"}
            if reply["k"] == "tools" and not reply["calls"]:
                reply = {"k": "final"}
            self.ev.append(("req", cid, self.modelname, list(seq)))
            if reply.get("lat"):
                self.ev.append(("sleep", reply["lat"]))
                self.now += reply["lat"]
            if reply["k"] == "err":
                raise RefExc(("label", f"c{cid}.r{reply['n']}"), EXCS[reply["exc"]])
            self.obs(cid, "completion.post")
            if reply["k"] == "nochoice":
                raise RefExc(("any",), Exception)
            content, tcs = reply_raw(reply, kind)
            am = Exp("assistant", content, tcalls=tcs)
            if reply["k"] == "empty":
                raise RefExc(("any",), Exception)
            bad = None
            if reply["k"] == "bad":
                if reply.get("interrupt"):
                    raise RefExc(("type", reply["interrupt"]), EXCS[reply["interrupt"]])
                bad = ("result", None)
            elif reply["k"] == "tools":
                for tc in reply["calls"]:
                    if tc.get("bad"):
                        bad = ("tool", tc)
                        break
            if bad is None:
                conv.append(am)
                self.obs(cid, "assistant.post")
                return reply
            desc = ("decode", "ResultDecodingError" if bad[0] == "result" else "ToolCallDecodingError",
                    content, bad[1]["id"] if bad[1] else None)
            exc = RefExc(desc, "DecodingError")
            if r is None:
                raise exc
            how, n = r["stop"]
            if (how == "attempt" and attempt >= n) or (how == "delay" and self.now - start >= n - 1e-9):
                raise exc
            toks = bad_tokens(reply, bad[1])
            tb = ["Traceback (most recent call last)"]
            seq.append(am)
            if bad[0] == "result":
                seq.append(Exp("user", anytext=True, has=toks + (tb if r["tb"] else []), hasnot=[] if r["tb"] else tb))
            else:
                seq.append(Group([
                    Exp("tool", anytext=True, tcid=tc["id"],
                        has=(toks + (tb if r["tb"] else [])) if tc is bad[1] else [],
                        hasnot=[] if r["tb"] else tb)
                    for tc in reply["calls"]]))
            if r["cb"]:
                self.ev.append(("cb", cid, attempt))
                self.fault(f"c{cid}.cb")
            w = r["wait"]
            d = 0.0
            if w:
                d = w[1] if w[0] == "fixed" else w[1] + w[2] * (attempt - 1)
            if d:
                self.ev.append(("sleep", d))
                self.fault(f"c{cid}.sleep")
                self.now += d

    def tool(self, call, conv, tc, session):
        cid = call["cid"]
        self.obs(cid, "tool.pre")
        r = self.retry
        try:
            if "tmpl" in tc:
                kind, _, v = self.call(tc["nest"])
                text = text_form(kind, v)
            elif "code" in tc:
                text = None
                out = session.run(tc)
                out.tcid = tc["id"]
                conv.append(out)
            else:
                text = self.run_tool(tc)
            if text is not None:
                conv.append(Exp("tool", text, tcid=tc["id"]))
        except RefExc as e:
            cls = e.catchable
            if cls == "unenc":
                raise RefExc(("any",), Exception) from None
            is_exc = cls in ("DecodingError", "toolexec") or issubclass(cls, Exception)
            if not is_exc:
                raise
            wrapped = RefExc(("toolexec", e.desc, tc["id"]), "toolexec")
            if r is None:
                raise wrapped from None
            c = r["catch"]
            caught = c == "Exception" or (c == "AppError" and not isinstance(cls, str) and issubclass(cls, AppError)) or (
                c == "ValueError" and not isinstance(cls, str) and issubclass(cls, ValueError))
            if not caught:
                raise wrapped from None
            tb = ["Traceback (most recent call last)"]
            has = [f"«{e.desc[1]}»"] if e.desc[0] == "label" else []
            conv.append(Exp("tool", anytext=True, tcid=tc["id"], has=has + (tb if r["tb"] else []),
                            hasnot=[] if r["tb"] else tb))
        self.obs(cid, "tool.post")

    def run_tool(self, tc):
        a = tc["args"]
        if tc["tool"] == "points":
            shown = repr([("P", p["x"], p["y"]) for p in a["ps"]])
        elif tc["tool"] == "mix":
            shown = norm_value(mix_args(a))
        else:
            shown = repr([a[n] for n in TOOL_ARGS[tc["tool"].split("__")[-1]]])
        self.ev.append(("tool", tc["tool"].split("__")[-1], tc["k"], shown))
        do = tc["do"]
        if "lat" in do:
            self.ev.append(("sleep", do["lat"]))
            self.now += do["lat"]
        if "raise" in do:
            raise RefExc(("label", f"tool{tc['k']}"), EXCS[do["raise"]])
        if "nest" in do:
            sub = do["nest"]
            try:
                v = self.call(sub)
                self.ev.append(("ret", sub["cid"], v[1]))
                return f"nested {v[1]}"
            except RefExc as e:
                self.ev.append(("exc", sub["cid"], e.desc))
                is_exc = isinstance(e.catchable, str) or issubclass(e.catchable, Exception)
                if do.get("swallow") and is_exc:
                    return "nested failed"
                raise
        if "unenc" in do:
            raise RefExc(("any",), "unenc")
        v = do.get("ret")
        if tc["tool"] == "points":
            return json.dumps([{"x": p[0], "y": p[1]} for p in v])
        return v if isinstance(v, str) else json.dumps(v)


class RefSession:
    """One persistent interpreter: CPython's own exec in one dictionary."""

    def __init__(self, ref, call):
        self.ref = ref
        self.ns = {"q": call["cid"], "x": call["x"], "LIMIT": 5, "sub": self._sub}

    def _sub(self, k):
        try:
            return self.ref.run_tool(self.ref.tools[k])
        except RefExc as e:
            cls = e.catchable
            if isinstance(cls, str):
                cls = Exception
            x = cls(f"«{e.desc[1]}»" if e.desc[0] == "label" else "?")
            x.ref = e
            raise x from None

    def run(self, tc):
        out, err = io.StringIO(), io.StringIO()
        name = f"<ref:{tc['k']}>"
        lines = tc["code"].splitlines()
        RefSession.sources[name] = lines
        bad = None
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                exec(compile(tc["code"], name, "exec"), self.ns)  # noqa: S102
            except SystemExit as e:
                x = getattr(e, "ref", None)
                raise (x or RefExc(("type", "SystemExit"), SystemExit)) from None
            except BaseException as e:  # noqa: BLE001
                bad = e
        if bad is None:
            return Exp("tool", out.getvalue() + err.getvalue())
        has = ["Traceback (most recent call last)"]
        tb = bad.__traceback__
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if fn in RefSession.sources:
                has.append(RefSession.sources[fn][tb.tb_lineno - 1].strip())
            tb = tb.tb_next
        msg = str(bad)
        vague = getattr(bad, "ref", None) is not None and bad.ref.desc[0] != "label"
        return Exp("tool", anytext=True, has=has, prefix=out.getvalue() + err.getvalue(),
                   suffix="" if vague else f"{type(bad).__name__}: {msg}\n" if msg else f"{type(bad).__name__}\n")

    sources: dict = {}


# ----------------------------------------------------------------------------
# the world: what really happens


class Frame:
    def __init__(self, call):
        self.call, self.i, self.req = call, 0, 0
        self.script = list(call["script"])
        self.counts: dict = {}


class ThreadState:
    def __init__(self, ref, model):
        self.stack: list[Frame] = []
        self.ev: list = []
        self.exp = ref.ev
        self.model = model
        self.counts: dict = {}
        self.lat = 0


class World:
    def __init__(self, plan, sim):
        from .fixtures import convo

        self.plan, self.sim, self.convo = plan, sim, convo
        from .fixtures import convo_kinds, convo_more

        self.convo_more, self.convo_kinds = convo_more, convo_kinds
        self.tools = model_tools(plan)
        self.calls: dict = {}
        self.faults = {(f["site"], f["nth"]): f for f in plan.get("faults", ())}
        for t in plan["threads"]:
            for c in t["calls"]:
                self._index(c)
        self.agents: list = []
        self.errors: list = []
        self.st = convo._local
        self.on_tool = None

    def _index(self, call):
        self.calls[call["cid"]] = call
        for r in call["script"]:
            for tc in r.get("calls", ()):
                if "nest" in tc.get("do", {}):
                    self._index(tc["do"]["nest"])
                if "nest" in tc:
                    self._index(tc["nest"])
        for tc in call.get("subs", ()):
            if "nest" in tc["do"]:
                self._index(tc["do"]["nest"])

    def make_agent(self, i):
        a = self.plan["agents"][i]
        cls = getattr(self.convo, a["cls"], None) or getattr(self.convo_more, a["cls"])
        return cls(a["name"])

    # -- faults: deterministic per (call, site, visit)
    def fault(self, site):
        s = self.state()
        n = s.counts.get(site, 0)
        s.counts[site] = n + 1
        f = self.faults.get((site, n))
        if f:
            self.sim.fired[f"{site.split('.', 1)[1]}:{f['kind']}"] += 1
            raise make_exc(f["kind"], f"{site}#{n}")

    def state(self) -> ThreadState:
        return self.st.state

    def emit(self, *ev):
        self.state().ev.append(ev)
        self.sim.event(getattr(self.st, "tid", -1), *[_log(e) for e in ev])

    # -- the model
    def model(self, *args, **kwargs):
        import litellm

        s = self.state()
        if not s.stack:
            raise core.Violation("stray-request", "the model was asked outside any call")
        fr = s.stack[-1]
        cid = fr.call["cid"]
        kind = template(fr.call, self.plan["agents"])[1]
        model = args[0] if args else kwargs.get("model")
        raw = kwargs.get("messages")
        msgs = [norm_msg(m) for m in raw]
        w = well_formed(msgs)
        if w:
            self.errors.append(("malformed-request", f"call {cid}, request {fr.req}: {w}: {[show_msg(m) for m in msgs]}"))
        fr.req += 1
        self.emit("req", cid, model, msgs)
        self.sim.point("model.request")
        reply = fr.script[fr.i] if fr.i < len(fr.script) else {"k": "final"}
        fr.i += 1
        if reply["k"] == "tools" and not reply["calls"]:
            reply = {"k": "final"}
        if fr.req > 60:
            raise core.Violation("endless-call", f"call {cid} made more than 60 requests")
        if reply.get("lat"):
            self.latency(reply["lat"])
        if reply.get("jump"):
            self.sim.fired["clock:jump"] += 1
            self.sim.clock.wall_offset += reply["jump"]
        if reply["k"] == "err":
            self.sim.fired[f"model:{reply['exc']}"] += 1
            raise make_exc(reply["exc"], f"c{cid}.r{reply['n']}")
        if reply["k"] == "nochoice":
            self.sim.fired["model:no-choices"] += 1
            return litellm.ModelResponse(id="r", choices=[], model="m")
        if reply["k"] != "final":
            self.sim.fired[f"model:{reply['k']}"] += 1
        content, tcs = reply_raw(reply, kind)
        msg = {"role": "assistant", "content": content}
        if tcs:
            msg["tool_calls"] = [{"id": i, "type": "function", "function": {"name": n, "arguments": a}} for i, n, a in tcs]
        r = litellm.ModelResponse(id="r", choices=[{"index": 0, "message": msg,
                                                    "finish_reason": reply.get("finish", "tool_calls" if tcs else "stop")}], model="m")
        self.sim.point("model.reply")
        return r

    # -- the tools of the application
    def tool(self, name, k, *args):
        self.emit("tool", name, k, self._args(name, args))
        self.sim.point("tool")
        if self.on_tool is not None:
            self.on_tool(name)
        tc = self.tools.get(k)
        if tc is None:
            raise core.Violation("stray-tool", f"tool {name} ran with unknown key {k!r}")
        do = tc["do"]
        if "lat" in do:
            self.latency(do["lat"])
        if "raise" in do:
            self.sim.fired[f"tool:{do['raise']}"] += 1
            raise make_exc(do["raise"], f"tool{k}")
        if "nest" in do:
            sub = do["nest"]
            self.sim.probe("nested_call")
            try:
                v = self.invoke(sub)
            except BaseException as e:
                self.emit("exc", sub["cid"], self.describe(e))
                if do.get("swallow") and isinstance(e, Exception) and not isinstance(e, core.Violation):
                    return "nested failed"
                raise
            self.emit("ret", sub["cid"], norm_value(v))
            return f"nested {norm_value(v)}"
        if "unenc" in do:
            self.sim.fired["tool:unencodable"] += 1
            return object()
        v = do.get("ret")
        if name == "points":
            return [self.convo.Point(*p) for p in v]
        if name == "mix":
            return build("out", v)
        return v

    def latency(self, d):
        import time

        s = self.state()
        s.lat += 1
        self.sim.fired["latency"] += 1
        try:
            time.sleep(d)
        finally:
            s.lat -= 1

    def _args(self, name, args):
        if name == "points":
            return norm_value(args[0])
        if name == "note":
            return repr(list(args[1:]))
        if name == "mix":
            return norm_value(list(args))
        return repr(list(args))

    # -- calls
    def invoke(self, call):
        t = call["t"]
        if call["on"] is not None:
            f = getattr(self.st, "held", {}).get((call["on"], t))
            if f is None:
                f = getattr(self.agents[call["on"]], t)
        else:
            f = getattr(self.convo_kinds if t[4:] in KINDS else self.convo, t)
        return f(call["cid"], build(t[4:], call["x"]))

    def describe(self, e):
        from effectful.handlers.llm import completions as c

        if isinstance(e, core.Violation):
            return ("violation", e.cls, e.msg)
        if isinstance(e, c.ToolCallExecutionError):
            return ("toolexec", self.describe(e.original_error), e.raw_tool_call.id)
        if isinstance(e, (c.ToolCallDecodingError, c.ResultDecodingError)):
            return ("decode", type(e).__name__, text_of(e.raw_message.get("content")),
                    e.raw_tool_call.id if isinstance(e, c.ToolCallDecodingError) else None)
        if hasattr(e, "label"):
            return ("label", e.label)
        return ("type", type(e).__name__, str(e)[:200])

    # handlers the application installs around everything
    def frame_handler(self):
        from effectful.handlers.llm import Template
        from effectful.ops.semantics import fwd

        def apply_(template, *args, **kwargs):
            s = self.state()
            cid = args[0] if args else kwargs.get("q")
            call = self.calls.get(cid)
            if call is None:
                raise core.Violation("stray-call", f"a template was called with an unknown identity {cid!r}")
            self.emit("call", cid)
            s.stack.append(Frame(call))
            try:
                return fwd()
            finally:
                s.stack.pop()

        return {Template.__apply__: apply_}

    def observer(self):
        from effectful.handlers.llm import completions as c
        from effectful.ops.semantics import fwd

        def obs(name):
            def h(*args, **kwargs):
                s = self.state()
                cid = s.stack[-1].call["cid"] if s.stack else None
                self.fault(f"c{cid}.{name}.pre")
                r = fwd()
                if name != "collect":
                    self.fault(f"c{cid}.{name}.post")
                return r

            return h

        return {c.call_system: obs("system"), c.call_user: obs("user"), c.call_assistant: obs("assistant"),
                c.call_tool: obs("tool"), c.completion: obs("completion"), c.collect_tools: obs("collect")}

    def lean(self):
        """Offer the model only the tools the script uses (keeps schema generation cheap)."""
        from effectful.handlers.llm import completions as c
        from effectful.ops.semantics import fwd

        names = {tc["tool"] for tc in self.tools.values()} | {f"nosuch{tc['k']}" for tc in self.tools.values()}
        return {c.collect_tools: lambda env: {k: v for k, v in fwd().items() if k in names}}

    def retry_handler(self, r):
        import tenacity

        from effectful.handlers.llm.completions import RetryLLMHandler

        kw = {}
        if r["wait"]:
            kw["wait"] = tenacity.wait_fixed(r["wait"][1]) if r["wait"][0] == "fixed" else tenacity.wait_incrementing(r["wait"][1], r["wait"][2])
        if r["cb"]:
            def cb(rs):
                cid = self.state().stack[-1].call["cid"]
                self.emit("cb", cid, rs.attempt_number)
                self.fault(f"c{cid}.cb")
            kw["before_sleep"] = cb
        how, n = r["stop"]
        catch = {"Exception": Exception, "ValueError": ValueError, "AppError": (AppError,), "none": ()}[r["catch"]]
        return RetryLLMHandler(include_traceback=r["tb"], catch_tool_errors=catch,
                               stop=tenacity.stop_after_attempt(n) if how == "attempt" else tenacity.stop_after_delay(n), **kw)

    def history(self, i):
        return [norm_msg(m) for m in self.agents[i].__history__.values()]


def _log(e):
    if isinstance(e, list):
        return [show_msg(m) if isinstance(m, dict) else m for m in e]
    return e


# ----------------------------------------------------------------------------
# comparison


def desc_ok(exp, got):
    if exp[0] == "any":
        return got[0] != "violation"
    if exp[0] == "type":
        return got[0] == "type" and got[1] == exp[1]
    if exp[0] == "toolexec":
        return got[0] == "toolexec" and got[2] == exp[2] and desc_ok(exp[1], got[1])
    return tuple(exp) == tuple(got)


def compare(exp, got, who):
    for i, g in enumerate(got):
        if g[0] == "exc" and g[2][0] == "violation":
            return g[2][1], g[2][2]
    for i in range(max(len(exp), len(got))):
        e = exp[i] if i < len(exp) else None
        g = got[i] if i < len(got) else None
        if e is None:
            return f"extra-{g[0]}", f"{who}: after the expected end: {_short(g)}"
        if g is None:
            return f"missing-{e[0]}", f"{who}: {_short(e)} never happened"
        if e[0] != g[0] or (e[0] != "sleep" and e[1] != g[1]):
            return f"{e[0]}-not-{g[0]}", f"{who}, step {i}: {_short(e)} expected, {_short(g)} happened"
        if e[0] == "req":
            if e[2] != g[2]:
                return "wrong-model", f"{who}: call {e[1]} asked model {g[2]!r}, its provider is configured for {e[2]!r}"
            d = match_messages(e[3], g[3])
            if d:
                return "request", f"{who}: request of call {e[1]}: {d}"
        elif e[0] == "hist":
            d = match_messages(e[2], g[2])
            if d:
                return "memory", f"{who}: memory of agent {e[1]}: {d}"
        elif e[0] == "exc":
            if not desc_ok(e[2], g[2]):
                return "exception", f"{who}: call {e[1]} ended with {g[2]!r} instead of {e[2]!r}"
        elif e[0] == "sleep":
            if abs(e[1] - g[1]) > 1e-6:
                return "wait", f"{who}, step {i}: waited {g[1]} s instead of {e[1]} s"
        elif tuple(e) != tuple(g):
            return e[0], f"{who}, step {i}: {_short(g)} instead of {_short(e)}"
    return None


def _short(e):
    if e[0] in ("req", "hist"):
        return f"{e[0]} {e[1]} with {len(e[-1])} messages"
    return repr(e)[:300]
