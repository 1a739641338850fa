#!/bin/bash
# Nothing to build: the checks are Python and import /repo's working tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 "$PY" -W ignore -c "
import sys
assert sys.version_info >= (3, 12), sys.version
sys.path.insert(0, '/repo')
import pyslet
print('setup ok', pyslet.__file__)
"
