#!/bin/bash
# usage: run_check.sh <property> quick|thorough
#        run_check.sh <property> replay <file>
# Runs one check against the code in /repo.
here="$(cd "$(dirname "$0")" && pwd)"
repo="${VERIF_REPO:-/repo}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export MPLBACKEND=Agg MPLCONFIGDIR="${MPLCONFIGDIR:-/opt/mplconfig}"
export PYTHONPATH="$here/harness:$here/harness/stubs:$repo/hand_eye_calibration/python:$repo/hand_eye_calibration_experiments/python"
unset PYTHONOPTIMIZE PYTHONWARNINGS
cd "$here" && exec /opt/venv/bin/python -W ignore "$here/harness/core.py" "$@"
