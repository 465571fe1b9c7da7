#!/bin/bash
# Nothing is built ahead of time: every check encodes /repo's current sources.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence/replays
PYTHONPATH=/opt/veriftools/pyvenv/lib/python3.12/site-packages \
  /opt/venv/bin/python -c 'import z3; s = z3.Solver(); x = z3.Real("x"); s.add(x * x == 2); assert s.check() == z3.sat; print("z3", z3.get_version_string())'
