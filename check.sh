#!/bin/bash
# check.sh <property> [options]: exit 0 held, 1 violated, 3 error of the check
cd "$(dirname "$0")" || exit 3
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH
exec /opt/venv/bin/python -B sim/main.py "$@"
