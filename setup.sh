#!/bin/sh
# nothing is compiled: check that the interpreter and the solver are there
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.'); sys.dont_write_bytecode = True
from symx import core
print('z3', core.z3.get_version_string())"
