"""A third module of the simulated application: prompt templates that take and return
values of many kinds, and a tool with optional, keyword-only and structured arguments."""

import dataclasses
import datetime
import enum
import typing

import pydantic
from PIL import Image

from effectful.handlers.llm import Template, Tool
from effectful.ops.types import NotHandled

from .convo import add, ask_num, ask_text, echo, world  # noqa: F401


class Model(pydantic.BaseModel):
    a: int
    b: list[str]


class Row(typing.TypedDict):
    a: int
    b: list[str]


class Entry(typing.TypedDict):
    type: str
    name: str


class Pos(typing.NamedTuple):
    a: int
    b: str


class Shade(enum.Enum):
    DARK = "dark"
    LIGHT = "light"


@dataclasses.dataclass
class In:
    x: int


@dataclasses.dataclass
class Out:
    ins: list[In]
    d: dict[str, int]
    o: int | None = None


def _factory():
    """Two modules of an application may well use one name for different classes."""

    @dataclasses.dataclass
    class Item:
        n: int
        s: str

    return Item


ItemA = _factory()
ItemB = _factory()


@Template.define
def ask_pair(q: int, x: tuple[int, str]) -> tuple[int, str]:
    """Q{q} pair {x}"""
    raise NotHandled


@Template.define
def ask_pairs(q: int, x: list[tuple[int, str]]) -> list[tuple[int, str]]:
    """Q{q} pairs {x}, in {{braces}}"""
    raise NotHandled


@Template.define
def ask_table(q: int, x: dict[str, int]) -> dict[str, int]:
    """Q{q} table {x}"""
    raise NotHandled


@Template.define
def ask_opt(q: int, x: int | None) -> int | None:
    """Q{q} opt {x}"""
    raise NotHandled


@Template.define
def ask_either(q: int, x: int | str) -> int | str:
    """Q{q} either {x!r:>12} or {x!s}"""
    raise NotHandled


@Template.define
def ask_color(q: int, x: typing.Literal["red", "green"]) -> typing.Literal["red", "green"]:
    """Q{q} color [{x:>8}]"""
    raise NotHandled


@Template.define
def ask_pic(q: int, x: Image.Image) -> Image.Image:
    """Q{q} pic {x} to look at, called {q:>3}"""
    raise NotHandled


@Template.define
def ask_pics(q: int, x: list[Image.Image]) -> list[Image.Image]:
    """Q{q} pics {x}"""
    raise NotHandled


@Template.define
def ask_flag(q: int, x: bool) -> bool:
    """Q{q} flag {x}"""
    raise NotHandled


@Template.define
def ask_real(q: int, x: float) -> float:
    """Q{q} real {x}"""
    raise NotHandled


@Template.define
def ask_cpx(q: int, x: complex) -> complex:
    """Q{q} cpx {x}"""
    raise NotHandled


@Template.define
def ask_day(q: int, x: datetime.date) -> datetime.date:
    """Q{q} day {x:*<12}"""
    raise NotHandled


@Template.define
def ask_model(q: int, x: Model) -> Model:
    """Q{q} model {x} with {x.b[0]} and {x.a}"""
    raise NotHandled


@Template.define
def ask_row(q: int, x: Row) -> Row:
    """Q{q} row {x} with {x[a]}"""
    raise NotHandled


@Template.define
def ask_entry(q: int, x: Entry) -> Entry:
    """Q{q} entry {x}"""
    raise NotHandled


@Template.define
def ask_groups(q: int, x: dict[str, list[int]]) -> dict[str, list[int]]:
    """Q{q} groups {x}"""
    raise NotHandled


@Template.define
def ask_pos(q: int, x: Pos) -> Pos:
    """Q{q} pos {x}"""
    raise NotHandled


@Template.define
def ask_shade(q: int, x: Shade) -> Shade:
    """Q{q} shade {x}"""
    raise NotHandled


@Template.define
def ask_out(q: int, x: Out) -> Out:
    """Q{q} out {x}"""
    raise NotHandled


@Template.define
def ask_outs(q: int, x: dict[str, Out]) -> dict[str, Out]:
    """Q{q} outs {x}"""
    raise NotHandled


@Template.define
def ask_itema(q: int, x: ItemA) -> ItemA:
    """Q{q} itema {x}"""
    raise NotHandled


@Template.define
def ask_itemb(q: int, x: ItemB) -> ItemB:
    """Q{q} itemb {x}"""
    raise NotHandled


@Tool.define
def mix(
    k: int, /, p: tuple[int, str], d: dict[str, int], n: int | None = 3, *,
    c: typing.Literal["red", "green"] = "red", z: complex = 0j,
) -> Out:
    """Mix things."""
    return world().tool("mix", k, p, d, n, c, z)
