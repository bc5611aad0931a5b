#!/usr/bin/env python3
"""Nothing to build: checks that the interpreter, rdflib and owlrl (from /repo) can be imported."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
exe = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
sys.exit(subprocess.call([exe, "-B", "-c", "import mc.real; print('ready')"], cwd=ROOT))
