#!/bin/bash
# usage: check.sh CNN [quick|thorough] [--replay FILE] [-v]
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 LC_ALL=C.UTF-8
export PYTHONPYCACHEPREFIX="$work/pyc" VERIF_SCRATCH="$work"
unset PYTHONPATH PYTHONHOME
/opt/venv/bin/python -B "$here/run.py" "$@"
exit $?
