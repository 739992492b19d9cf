#!/bin/bash
# Nothing to build: checks that the interpreter, /repo and the machinery load.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONPATH="$PWD:/repo" PYTHONDONTWRITEBYTECODE=1 "$PY" -B -c '
import importlib, glob, os, sys
from dst import sim
sim.warm()
for path in sorted(glob.glob("dst/props/*.py")):
  importlib.import_module("dst.props." + os.path.basename(path)[:-3])
print("ready")'
