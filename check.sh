#!/bin/bash
# check.sh <property id> <quick|thorough>: decide one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python run.py "$1" --tier "${2:-quick}"
