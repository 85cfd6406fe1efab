#!/bin/bash
# bash run.sh ID [--tier quick|thorough] [--seed N]: run one check against the working tree of /repo
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=${OMP_NUM_THREADS:-2} QT_REPO=${QT_REPO:-/repo}
export PYTHONPATH="$QT_REPO:$PWD"
SCRATCH=$(mktemp -d /tmp/qtmon.XXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export TMPDIR="$SCRATCH" MPLCONFIGDIR="$SCRATCH" HOME="$SCRATCH"
timeout -k 10 ${QT_TIMEOUT:-880} /opt/venv/bin/python -m mon.run "$@"
