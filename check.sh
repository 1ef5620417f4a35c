#!/bin/bash
# Runs the check of one property against the working tree of /repo
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen LC_ALL=C.UTF-8 LANG=C.UTF-8
unset PYTHONPATH
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
SCRATCH="$(mktemp -d)" || exit 2
# never read compiled files lying in the tree
export PYTHONPYCACHEPREFIX="$SCRATCH/pyc"
export VERIF_SCRATCH="$SCRATCH" MPLCONFIGDIR="$SCRATCH/mpl"
trap 'rm -rf -- "$SCRATCH"' EXIT
"$PY" -W ignore run.py "$@"
