#!/bin/bash
# usage: run.sh <property> [quick|thorough] [--replay FILE] [--only SUB] [--scale X]
here="$(cd "$(dirname "$0")" && pwd)"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
unset PYTHONPATH PYTHONSTARTUP
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" "$here/harness/main.py" "$@"
