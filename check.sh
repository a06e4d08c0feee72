#!/bin/bash
# check.sh <property> [args]: decides one property on /repo's current working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPYCACHEPREFIX
exec /opt/venv/bin/python -W ignore -m symex.run "$@"
