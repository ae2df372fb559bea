#!/bin/sh
# nothing to build: check that the tools the checks need are there
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
python3-vt -c 'import z3, symx.run; print("z3", z3.get_version_string())' &&
/opt/venv/bin/python -c 'import sys; print("python", sys.version)'
