#!/bin/bash
# Nothing to build: the checks load /repo's current source themselves. Verify the tools are there.
cd "$(dirname "$0")" && /opt/venv/bin/python -B -c '
import sys; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, numpy, numba, riptide_cpp; print("z3", z3.get_version_string(), "numpy", numpy.__version__)'
