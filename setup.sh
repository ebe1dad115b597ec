#!/bin/bash
# Nothing is built: the checks read /repo's sources on every run.  Verifies that the tools are there.
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
python3-vt -c 'import z3, numpy; from t3v import sym' && test -x /opt/venv/bin/python
