#!/bin/bash
# bash check.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [--scale X]
# Decides one property against the composipy in ${VERIF_REPO:-/repo}.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
PY=/opt/venv/bin/python
exec "$PY" run.py "$@"
