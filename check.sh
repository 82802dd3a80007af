#!/bin/bash
# check.sh <property> [quick|thorough]: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 3
PY=/opt/venv/bin/python
cache=$(mktemp -d)
trap 'rm -rf "$cache"' EXIT
# never read stale byte code of the code under test, never write any into /repo
export PYTHONPYCACHEPREFIX="$cache" PYTHONHASHSEED=0 PYTHONPATH=/repo/src
"$PY" harness/check.py "$@"
