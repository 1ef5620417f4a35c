#!/bin/bash
# Nothing to build: checks that the interpreter and the library can be loaded
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
W="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$W"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$W/pyc" MPLBACKEND=Agg MPLCONFIGDIR="$W" LC_ALL=C.UTF-8
mkdir -p evidence/replay
"$PY" -W ignore -c "import mon.boot, numpy, scipy, matplotlib; print('library loaded from', mon.boot.REPO)"
