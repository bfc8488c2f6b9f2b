#!/bin/bash
# Nothing has to be built: check that the interpreter, satella and Hypothesis are importable.
set -e
cd "$(dirname "${BASH_SOURCE[0]}")/.."
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, '/repo')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis, satella
print('ok', hypothesis.__version__, satella.__file__)
P
