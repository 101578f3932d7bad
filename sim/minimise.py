"""Greedy delta-debugging of a failing plan: drops list elements anywhere under the
scenario's droppable keys, as long as the same violation class persists."""

from __future__ import annotations

import copy
import time

_mono = time.monotonic


def _paths(obj, keys, prefix=()):
    """All lists reachable under droppable keys, outermost first."""
    out = []
    if isinstance(obj, dict):
        for k, v in obj.items():
            if k in keys and isinstance(v, list):
                out.append((*prefix, k))
            out += _paths(v, keys, (*prefix, k))
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            out += _paths(v, keys, (*prefix, i))
    return out


def _get(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def minimise(plan, fails, keys, simplify=lambda p: (), budget=40.0):
    """fails(plan) -> plan' (possibly with a re-recorded schedule) or None."""
    end = _mono() + budget
    best = plan
    tried = 0
    changed = True
    while changed and _mono() < end:
        changed = False
        for path in _paths(best, keys):
            try:
                lst = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            n = len(lst)
            size = max(1, n // 2)
            while size >= 1 and _mono() < end:
                i = 0
                while i < len(_get(best, path)) and _mono() < end:
                    cand = copy.deepcopy(best)
                    l2 = _get(cand, path)
                    del l2[i : i + size]
                    tried += 1
                    r = fails(cand)
                    if r is not None:
                        best = r
                        changed = True
                        try:
                            _get(best, path)
                        except (KeyError, IndexError, TypeError):
                            break
                    else:
                        i += size
                try:
                    _get(best, path)
                except (KeyError, IndexError, TypeError):
                    break
                size //= 2
        for cand in simplify(best):
            if _mono() > end:
                break
            tried += 1
            r = fails(cand)
            if r is not None:
                best = r
                changed = True
                break
    return best, tried
