#!/bin/bash
# usage: run.sh C01 [--replay FILE] [--only NAME...]   (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${VERIF_SEED:-1} OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH=$PWD
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B -W ignore -m vc.main "$@"
