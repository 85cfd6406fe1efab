#!/bin/bash
# Nothing to compile: the checks import /repo's working tree. Check the monitors against each other.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg PYTHONPATH="${QT_REPO:-/repo}:$PWD"
exec timeout 600 /opt/venv/bin/python -m mon.selftest
