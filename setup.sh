#!/bin/bash
# nothing to build: check that the interpreter, z3 and the engine load
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
/opt/venv/bin/python -c "import sx, sx.load, z3; print('z3', z3.get_version_string())"
