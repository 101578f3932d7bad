"""Simulated application: tools, prompt templates and agents used by the conversation scenarios."""

import dataclasses
import threading

from effectful.handlers.llm import Agent, Template, Tool
from effectful.ops.types import NotHandled

_local = threading.local()


def world():
    return _local.world


def set_world(w):
    _local.world = w


@dataclasses.dataclass
class Point:
    x: int
    y: int

    def __post_init__(self):
        # validation by the application: some points are not acceptable
        if self.x == 666:
            raise ValueError(f"bad point {self.y}")
        if self.x == 667:
            raise KeyboardInterrupt
        if self.x == 668:
            raise RuntimeError(f"bad point {self.y}")


@Tool.define
def add(k: int, a: int, b: int) -> int:
    """Add two numbers."""
    return world().tool("add", k, a, b)


@Tool.define
def echo(k: int, s: str) -> str:
    """Echo a text."""
    return world().tool("echo", k, s)


@Tool.define
def points(k: int, ps: list[Point]) -> list[Point]:
    """Transform points."""
    return world().tool("points", k, ps)


@Tool.define
def sub(k: int) -> str:
    """Do something by key."""
    # only snippets call this: what is printed meanwhile is output of the snippet
    _local.inside = getattr(_local, "inside", 0) + 1
    try:
        return world().tool("sub", k)
    finally:
        _local.inside -= 1


LIMIT = 5


@Template.define
def ask_text(q: int, x: str) -> str:
    """Q{q} text: {x}"""
    raise NotHandled


@Template.define
def ask_num(q: int, x: str) -> int:
    """Q{q} number for {x} please"""
    raise NotHandled


@Template.define
def ask_points(q: int, x: list[int]) -> list[Point]:
    """Q{q} points from {x}"""
    raise NotHandled


class Clerk(Agent):
    """You are a clerk."""

    def __init__(self, name):
        self.name = name

    @Template.define
    def say(self, q: int, x: str) -> str:
        """Q{q} {self.name} says {x}"""
        raise NotHandled

    @Template.define
    def num(self, q: int, x: str) -> int:
        """Q{q} {self.name} counts {x}"""
        raise NotHandled

    @Tool.define
    def note(self, k: int, s: str) -> str:
        """Take a note."""
        return world().tool("note", k, self.name, s)


@dataclasses.dataclass(eq=False)
class Scout(Agent):
    """You are a scout."""

    name: str

    @Template.define
    def find(self, q: int, x: str) -> list[Point]:
        """Q{q} {self.name} finds {x}"""
        raise NotHandled

    @Template.define
    def pick(self, q: int, x: str) -> Point:
        """Q{q} {self.name} picks {x}"""
        raise NotHandled

    @Template.define
    def gist(self, q: int, x: str) -> str:
        """Q{q} {self.name} gist of {x}"""
        raise NotHandled
