#!/bin/bash
# nothing to build (pure Python); make sure the tree under test and the tools can be loaded
cd "$(dirname "$(readlink -f "$0")")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence
exec "$PY" -B -c "
import sys; sys.path.insert(0, '.')
from mc import core; core.setup_process(); print('ready')"
