from __future__ import annotations

import importlib

from .registry_meta import PROPS

_WHERE = {
    "dispatch": ("dispatch", "Dispatch"),
    "objects": ("objects", "Objects"),
    "firstuse": ("firstuse", "FirstUse"),
    "classes": ("classes", "Classes"),
    "convo": ("convo", "Convo"),
    "repl": ("repl", "Repl"),
    "terms": ("terms", "Terms"),
    "gate": ("gate", "Gate"),
    "arrays": ("arrays", "Arrays"),
    "arrays_jax": ("arrays", "ArraysJax"),
    "arrayexpr": ("arrayexpr", "ArrayExpr"),
    "arrayexpr_jax": ("arrayexpr", "ArrayExprJax"),
    "dists": ("dists", "Dists"),
    "pyromodel": ("pyromodel", "PyroModel"),
    "dists_jax": ("dists", "DistsJax"),
    "scope": ("scope", "Scope"),
    "product": ("product", "Product"),
}


def scenarios_for(prop):
    out = []
    for name, w in PROPS[prop]["scenarios"].items():
        mod, cls = _WHERE[name]
        m = importlib.import_module(f"sim.scenarios.{mod}")
        out.append((getattr(m, cls)(), w))
    return out
