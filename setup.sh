#!/bin/bash
# Nothing to build: everything is Python.  Self-tests the reference model's primitives.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD/lib"
mkdir -p evidence/replay
exec /opt/venv/bin/python -c "
from ref import prim, curves, ethash
prim.selftest(); curves.selftest(); ethash.selftest(); print('model self-tests ok')"
