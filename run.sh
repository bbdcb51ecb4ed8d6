#!/bin/bash
# ./run.sh <PROPERTY> [--case family:index] -- runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
REPO="${VERIF_REPO:-/repo}"
export VERIF_REPO="$REPO"
export PYTHONPATH="$REPO/shepherd_core:$REPO/shepherd_data"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC MPLBACKEND=Agg PWNLIB_NOTERM=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TQDM_DISABLE=1 NO_COLOR=1 COLUMNS=200
export LC_ALL=C.UTF-8
exec /opt/venv/bin/python -W ignore run.py "$@"
