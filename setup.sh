#!/bin/bash
# nothing to build: checks that the tools the checks use are present
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, sympy, numpy
print("z3", z3.get_version_string(), "sympy", sympy.__version__, "numpy", numpy.__version__)
P
