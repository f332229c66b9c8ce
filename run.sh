#!/bin/bash
# ./run.sh C01            run the check of one property (tier from VERIF_TIER, quick by default)
# ./run.sh replay FILE    re-run one recorded counterexample against /repo
# ./run.sh all            run every check
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export KC_REPO="${KC_REPO:-/repo}"
export PYTHONPATH="$KC_REPO:$PWD" MPLBACKEND=Agg HOME="${HOME:-/root}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
export HDF5_USE_FILE_LOCKING=FALSE
exec /opt/venv/bin/python -W ignore -m kcheck "$@"
