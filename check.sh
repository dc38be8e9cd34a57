#!/bin/bash
# usage: check.sh ID [quick|thorough]
cd "$(dirname "$0")" || exit 2
T="${2:-${VERIF_TIER:-quick}}"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
export HOME="${SYMX_HOME:-$HOME}"
exec /opt/venv/bin/python -m symx.runner "$1" --tier "$T" "${@:3}"
