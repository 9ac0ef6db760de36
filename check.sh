#!/bin/bash
# usage: check.sh C06 [more arguments of sx.run]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m sx.run "$@"
