#!/bin/bash
# run.sh PROPERTY [quick|thorough] [--replay FILE]
# Runs one model-checking harness of /verif/checks against /repo's working tree.
cd "$(dirname "$0")" || exit 1
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift
export HOME=/root LANG=C.UTF-8 PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export HDF5_USE_FILE_LOCKING=FALSE
export VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
unset PYTHONPATH
exec /opt/venv/bin/python -W ignore -m mc.main "$ID" "$TIER" "$@"
