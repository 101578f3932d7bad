"""Another module of the simulated application: agents that extend those of the first."""

from effectful.handlers.llm import Template, Tool
from effectful.ops.types import NotHandled

from .convo import (  # noqa: F401
    LIMIT, Clerk, Point, Scout, add, ask_num, ask_points, ask_text, echo, points, sub, world,
)


class Ranger(Scout):
    """You are a ranger, a kind of scout."""

    @Template.define
    def report(self, q: int, x: str) -> str:
        """Q{q} {self.name} reports {x}"""
        raise NotHandled

    @Template.define
    def pick(self, q: int, x: str) -> Point:
        """Q{q} {self.name} picks again {x}"""
        raise NotHandled


class Chief(Clerk):
    """You are the chief clerk."""

    @Template.define
    def order(self, q: int, x: str) -> int:
        """Q{q} {self.name} orders {x}"""
        raise NotHandled

    @Tool.define
    def note(self, k: int, s: str) -> str:
        """Take a note, as the chief."""
        return world().tool("note", k, self.name, s)
