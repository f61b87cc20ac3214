#!/bin/bash
# Nothing to compile: check that the solver and the engine import.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
PY=/opt/veriftools/pyvenv/bin/python
[ -x "$PY" ] || PY=$(command -v python3-vt)
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1
exec "$PY" -c 'import sys; sys.path.insert(0,"."); import symx.harness, z3; print("z3", z3.get_version_string())'
