#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough]   or   run.sh --replay <file>
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$here/lib/main.py" "$@"
