#!/bin/bash
# Builds the harness's native parts and procstar once.
cd "$(dirname "$0")" || exit 2
PY=/opt/vp/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/lib:$PWD/checks"
exec "$PY" -c 'import core; core.build_native(); core.build_procstar(); print("ready")'
