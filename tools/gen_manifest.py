#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/registry_meta.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim.registry_meta import NOT_APPLICABLE, NOTES, PROPS  # noqa: E402

ids = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append(dict(
            property=i,
            quick_cmd=f"python3 check.py {i} --tier quick",
            thorough_cmd=f"python3 check.py {i} --tier thorough",
            technique="deterministic simulation with fault injection (seeded schedule and fault search, reference-model oracle)",
            level="exploration",
            level_note=NOTES[i],
        ))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
doc = dict(
    version=1, setup_cmd="python3 tools/setup.py",
    checks=checks, not_applicable=na,
    notes="No hooks are added to /repo: every seam the simulator needs (threads via sys.monitoring, locks, time, "
          "litellm.completion, subprocess, files, uuid) is patched from outside, in the checking process only.")
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
