#!/bin/bash
# run.sh PID [args]: run one check against /repo's working tree.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD/lib:${VERIF_REPO:-/repo}/src"
ulimit -s unlimited 2>/dev/null || ulimit -s 65536 2>/dev/null
pid=$1; shift
exec /opt/venv/bin/python "checks/$(echo "$pid" | tr A-Z a-z).py" "$@"
