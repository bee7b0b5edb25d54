#!/bin/bash
# usage: run.sh <ID> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=0
unset PYTHONPATH PYTHONHOME
pyc=$(mktemp -d) || exit 2
trap 'rm -rf "$pyc"' EXIT
export PYTHONPYCACHEPREFIX="$pyc"
py=/opt/venv/bin/python
"$py" -B -m rv.run "$@"
