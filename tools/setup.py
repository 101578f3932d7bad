#!/usr/bin/env python3
"""Nothing is compiled: checks that the interpreter and the code under test import."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
env = dict(os.environ, PYTHONPATH=HERE + os.pathsep + os.environ.get("VERIF_REPO", "/repo"), PYTHONDONTWRITEBYTECODE="1")
sys.exit(subprocess.run([PY, "-c", "import sim.core, effectful.ops.semantics; print('ok')"], env=env, cwd=HERE).returncode)
