#!/bin/bash
# ./run.sh <property id> [--tier quick|thorough] [--replay file]
cd "$(dirname "$0")" || exit 2
id=$1; shift
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PYTHONPATH
exec /opt/venv/bin/python -B -W ignore checks/"$id".py "$@"
