#!/bin/bash
# nothing to build: the framework is interpreted; check that the tools it needs are there
cd "$(dirname "$0")" || exit 2
mkdir -p evidence out
/opt/venv/bin/python -B -c "import numpy, sympy, scipy, orquestra.quantum.circuits; print('repository importable')" || exit 1
/opt/venv/bin/python -B -c "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3; print('z3', z3.get_version_string())" || exit 1
