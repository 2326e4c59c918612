#!/bin/bash
# check.sh <ID> <tier>: runs one check against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -m vlib.run "$1" --tier "${2:-quick}" "${@:3}"
