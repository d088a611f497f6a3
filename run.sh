#!/bin/bash
# usage: run.sh Cxx [quick|thorough]     or    run.sh --replay FILE
cd "$(dirname "$0")"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLBACKEND=Agg PYTHONWARNINGS=ignore
[ -n "$2" ] && [ "$1" != "--replay" ] && export VERIF_TIER="$2"
exec /opt/venv/bin/python lib/main.py "$@"
