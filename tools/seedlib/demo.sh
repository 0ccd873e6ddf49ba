#!/bin/bash
# cwd is /repo; exit 0 if the property holds
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec env PYTHONDONTWRITEBYTECODE=1 timeout 200 "$PY" "$(dirname "$0")/demo.py"
