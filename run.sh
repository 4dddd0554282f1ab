#!/bin/bash
# run.sh PROPERTY [tier]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore check.py "$1" --tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
