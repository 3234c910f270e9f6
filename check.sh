#!/bin/bash
# check.sh ID [--tier quick|thorough] [--replay FILE]: run one property check against /repo's working tree
cd "$(dirname "$0")" || exit 3
export HOME=/root LANG=C.UTF-8 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore run.py "$@"
