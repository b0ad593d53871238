#!/bin/bash
# nothing to build: the checks import /repo/src directly. Verify that the tools are importable.
cd "$(dirname "$0")" || exit 1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
PYTHONDONTWRITEBYTECODE=1 "$py" - <<'P'
import sys
sys.path.insert(0, "harness")
import core
core.setup_paths()
import hypothesis, numpy
print("setup ok: hypothesis", hypothesis.__version__, "numpy", numpy.__version__)
P
