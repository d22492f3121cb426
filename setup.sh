#!/bin/bash
# nothing to build: checks that the interpreters, the solver bindings and the code under test can be loaded
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore -c '
import sys
sys.path.insert(0, "/repo")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, numpy, scipy, pycomplex.topology.simplicial
print("z3", z3.get_version_string(), "numpy", numpy.__version__, "scipy", scipy.__version__)'
