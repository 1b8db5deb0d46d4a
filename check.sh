#!/bin/bash
# usage: check.sh <property> [quick|thorough] [extra args]
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONPATH=/repo:/verif
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
export VERIF_TIER=$tier
exec /opt/venv/bin/python -m mc.run "$prop" --tier "$tier" "$@"
