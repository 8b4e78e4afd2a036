#!/bin/bash
# check.sh <property id> [args]: runs one check with the project's own interpreter.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
exec /opt/venv/bin/python -B run.py "$@"
