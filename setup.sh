#!/bin/bash
# nothing to build: the checks run the code of /repo/src directly; verify that the solver and the interpreter are there
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '.')
from symex.core import z3
s = z3.Solver(); x = z3.Real('x'); s.add(x * x == 2); assert s.check() == z3.sat
print('z3', z3.get_version_string())"
