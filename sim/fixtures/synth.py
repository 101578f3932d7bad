"""Templates whose results are code. The module has type errors of its own, which are
nobody's business: TYPERR marks what the simulated type checker reports."""

import threading
from collections.abc import Callable

from effectful.handlers.llm import Agent, Template, Tool
from effectful.ops.types import NotHandled

_local = threading.local()

LEGACY_BEFORE: int = "TYPERR before"


def ran(n):
    """Called by generated code when it runs."""
    _local.world.ran(n)
    return n


def broken_helper(a: int) -> int:
    return "TYPERR helper"


@Template.define
def make(q: int, hint: str = "TYPERR in the signature") -> Callable[[int], int]:
    """Q{q} make {hint}"""
    raise NotHandled


@Template.define
def make_two(q: int, hint: str) -> list[Callable[[int], int]]:
    """Q{q} make two {hint}"""
    raise NotHandled


@Template.define
def chat(q: int, hint: str) -> str:
    """Q{q} chat {hint}"""
    raise NotHandled


@Template.define
def show(q: int, fn: Callable[[int], int]) -> str:
    """Q{q} look at {fn}"""
    raise NotHandled


@Tool.define
def keep(k: int, fn: Callable[[int], int]) -> str:
    """Keep a function."""
    return _local.world.keep(k, fn)


class Maker(Agent):
    """You make things."""

    legacy: int = "TYPERR class"

    @Template.define
    def build(self, q: int, hint: str) -> Callable[[int], int]:
        """Q{q} build {hint}"""
        raise NotHandled

    @Template.define
    def work(self, q: int, hint: str) -> str:
        """Q{q} work {hint}"""
        raise NotHandled


def local_template(offset: int):
    before: int = "TYPERR local"

    @Template.define
    def inner(
        q: int,
        hint: str = "TYPERR here too",
    ) -> Callable[[int], int]:
        """Q{q} inner {hint}"""
        raise NotHandled

    after: int = "TYPERR local after"
    return inner, before, after


inner = local_template(3)[0]

LEGACY_AFTER: int = "TYPERR after"
