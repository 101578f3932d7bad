#!/usr/bin/env python3
"""Validate planted changes: plant.py [--no-tests] [--checks C01,L02|own|none] ID...

For each /verif/seeded/ID: the patch applies, changes only lines of the original
repository, the demonstration passes without and fails with it, the stable tests pass,
and which checks report it (run against a scratch copy through VERIF_REPO)."""
import json, os, re, shutil, subprocess, sys, tempfile

BASE = os.environ.get("PLANT_BASE", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ORIG = subprocess.check_output(["git", "-C", BASE, "rev-list", "--max-parents=0", "HEAD"], text=True).split()[-1]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def copy(d):
    os.makedirs(d)
    subprocess.run(f"git -C {BASE} archive HEAD | tar x -C {d} && cp {BASE}/effectful/_version.py {d}/effectful/ 2>/dev/null; true", shell=True)


def mine():
    log = subprocess.check_output(["git", "-C", BASE, "log", "--format=%H %s"], text=True).splitlines()
    return {l.split()[0] for l in log if l.split(" ", 1)[1].startswith(("fix:", "hook"))}


def blame_ok(patch):
    bad, f, own = [], None, mine()
    blames = {}
    for line in open(patch):
        if line.startswith("--- a/"):
            f = line[6:].strip()
            out = subprocess.check_output(["git", "-C", BASE, "blame", "-s", "--abbrev=40", f], text=True).splitlines()
            blames[f] = [l.split()[0].lstrip("^") for l in out]
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1)) - 1
        elif line.startswith("-") and not line.startswith("---"):
            if blames[f][n][:39] in {o[:39] for o in own}:
                bad.append((f, n + 1))
            n += 1
        elif line.startswith(" "):
            n += 1
    return bad


def env(d):
    e = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MKL_NUM_THREADS="1", OMP_NUM_THREADS="1",
             JAX_PLATFORMS="cpu", LITELLM_LOCAL_MODEL_COST_MAP="True", HF_HUB_OFFLINE="1", PYTHONPATH=d)
    return e


def main(argv):
    tests, checks, ids = True, "own", []
    it = iter(argv)
    for a in it:
        if a == "--no-tests":
            tests = False
        elif a == "--checks":
            checks = next(it)
        else:
            ids.append(a)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        src = os.path.join(HERE, "seeded", i)
        prop = json.load(open(os.path.join(src, "meta.json")))["property"]
        d = tempfile.mkdtemp(prefix="plant-", dir="/tmp/w") + BASE
        demo = tempfile.mkdtemp(prefix="demo-", dir="/tmp/w")
        out = [i]
        try:
            for f in os.listdir(src):
                if not f.endswith((".diff", ".patch")) and f != "meta.json":
                    shutil.copy(os.path.join(src, f), demo)
            copy(d)
            bl = blame_ok(os.path.join(src, "patch.diff"))
            if bl:
                out.append(f"TOUCHES-FIX-LINES {bl}")
            r = sh(f"timeout 300 bash {demo}/demo.sh", cwd=d, env=env(d))
            out.append(f"demo-clean={r.returncode}" + ("" if r.returncode == 0 else " BAD " + r.stdout[-600:]))
            a = sh(f"git apply --unsafe-paths --directory={d} {src}/patch.diff || (cd {d} && patch -p1 < {src}/patch.diff)", cwd="/tmp")
            if a.returncode:
                out.append("PATCH FAILED " + a.stdout)
            r = sh(f"timeout 300 bash {demo}/demo.sh", cwd=d, env=env(d))
            out.append(f"demo-bug={r.returncode}" + ("" if r.returncode else " BAD"))
            if os.environ.get("PLANT_SHOW"):
                out.append(r.stdout[-400:])
            if tests:
                r = sh(f"{PY} -m pytest -q -p no:cacheprovider -n 8 --timeout=240 --continue-on-collection-errors --benchmark-disable "
                       f"-o junit_family=xunit2 --junitxml={demo}/j.xml --ignore=tests/test_handlers_indexed.py --ignore=tests/test_handlers_pyro_dist.py "
                       "--ignore=tests/test_handlers_numpyro.py --ignore=tests/test_handlers_llm_evaluation.py --ignore=tests/test_handlers_llm_encoding.py effectful/ tests/",
                       cwd=d, env=env(d))
                import xml.etree.ElementTree as ET
                ok = set()
                for tc in ET.parse(f"{demo}/j.xml").getroot().iter("testcase"):
                    if not any(c.tag in ("failure", "error", "skipped") for c in tc):
                        ok.add(f"{tc.get('classname')}::{tc.get('name')}")
                miss = stable - ok
                out.append(f"stable-missing={len(miss)} {sorted(miss)[:4] if miss else ''}")
            if checks != "none":
                for p in ([prop] if checks == "own" else checks.split(",")):
                    r = sh(f"python3 check.py {p}", cwd=HERE, env=dict(os.environ, VERIF_REPO=d, VERIF_TIER="quick"))
                    v = "CAUGHT" if "VIOLATION property=" in r.stdout and r.returncode == 1 else f"missed({r.returncode})"
                    m = [l for l in r.stdout.splitlines() if l.startswith(("run ", "HARNESS", "minimised"))]
                    out.append(f"{p}:{v} " + (m[-1][:260] if m else r.stdout[-200:].strip()))
        finally:
            shutil.rmtree(os.path.dirname(d), ignore_errors=True)
            shutil.rmtree(demo, ignore_errors=True)
        print(" | ".join(out), flush=True)


main(sys.argv[1:])
