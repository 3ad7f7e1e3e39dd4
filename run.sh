#!/bin/bash
# run.sh <PROPERTY> [args]: decide one property against /repo's working tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export HOME="${HOME:-/root}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg PIP_NO_INDEX=1 NUMBA_NUM_THREADS=2
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
exec /opt/venv/bin/python -W ignore -m vf.main "$@"
