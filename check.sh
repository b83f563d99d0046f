#!/bin/bash
# check.sh PROPERTY [args]: run one property's monitors against /repo's working tree.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH
exec "$PY" -B -W ignore run.py "$@"
