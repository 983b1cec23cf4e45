#!/bin/bash
# Nothing is built ahead of time: every check compiles what it needs in a
# scratch directory.  This only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
command -v java javac >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c 'import numpy, numba, scipy, joblib'
chmod +x run.py
