#!/bin/bash
# check.sh ID [quick|thorough] [--replay FILE]   - exit 0 held, 1 VIOLATION
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B mc/run.py "$@"
