#!/bin/bash
# usage: mc/run.sh <property id> [--tier quick|thorough] [--replay FILE]
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/venv/mplconfig}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH PYTHONHOME
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/.." || exit 1
exec /opt/venv/bin/python -W ignore "$here/main.py" "$@"
