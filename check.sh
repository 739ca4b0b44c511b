#!/bin/bash
# bash check.sh <property> [--only <scenario>]
cd "$(dirname "$0")" || exit 2
export MPLBACKEND=Agg PYVISTA_OFF_SCREEN=true PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore harness/check.py "$@"
