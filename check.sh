#!/bin/bash
# bash check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export HOME=/root LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache
SCRATCH=$(mktemp -d /tmp/verif_run.XXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export TMPDIR=$SCRATCH MPLCONFIGDIR=$SCRATCH
/opt/venv/bin/python -W ignore harness/main.py "$@"
