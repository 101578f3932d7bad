from __future__ import annotations


class Scenario:
    """A workload + oracle. `generate` draws a plan, `execute` runs it in a forked child."""

    name = "?"
    real: list[str] = []  # components running real code
    stubs: list[str] = []  # components replaced by simulated ones
    rule = ""  # what makes a run non-trivial
    groups: tuple[str, ...] = ("core",)

    def setup(self):
        """Import the code under test (once per worker, before forking)."""

    def generate(self, rng, prop, tier) -> dict:
        raise NotImplementedError

    def execute(self, plan, sim) -> None:
        raise NotImplementedError

    def nontrivial(self, res: dict) -> bool:
        return bool(res.get("preemptions") or sum(res.get("fired", {}).values()))

    # keys whose list elements the minimiser may drop
    droppable: tuple[str, ...] = ("threads", "faults", "body", "switches", "ops")

    def simplify(self, plan: dict):
        """Yield further simpler plans (scenario specific)."""
        return ()


class Stop(Exception):
    pass
