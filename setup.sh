#!/bin/bash
# Nothing to compile: checks that the interpreter, the solver and the package under test are importable.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -W ignore -c "
import check
check.setup()
import z3, pyg2p
from engine import runner, core, nplike
print('z3', z3.get_version_string(), 'pyg2p', pyg2p.__version__, 'from', pyg2p.__file__)
"
