#!/usr/bin/env python3
"""Determinism of the simulator: the same seeds, run with different worker counts and
Python hash seeds, must give identical event logs and interleavings.

usage: tools/selftest.py PROP [runs]"""
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, n = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "200"
outs = []
with tempfile.TemporaryDirectory() as d:
    for i, (nw, hs) in enumerate([("8", "0"), ("3", "0"), ("8", "1"), ("5", "77")]):
        f = os.path.join(d, str(i))
        subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop],
                       env=dict(os.environ, VERIF_RUNS=n, VERIF_WORKERS=nw, VERIF_HASHSEED=hs, VERIF_DUMP=f),
                       stdout=subprocess.DEVNULL)
        outs.append(sorted(open(f), key=lambda x: int(x.split()[0])))
bad = 0
for k, o in enumerate(outs[1:], 1):
    for a, b in zip(outs[0], o):
        if a != b:
            bad += 1
            if bad < 6:
                print("DIFF", k, a.strip(), "|", b.strip())
print(f"{prop}: {len(outs[0])} seeds x {len(outs)} configurations, {bad} differences")
sys.exit(bool(bad))
