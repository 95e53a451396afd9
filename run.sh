#!/bin/bash
# bash run.sh C01 [--tier thorough] [--replay FILE] [-v]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export LANG=C.UTF-8 LC_ALL=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export SETUPTOOLS_USE_DISTUTILS=local RAY_USAGE_STATS_ENABLED=0 RAY_AUTH_MODE=disabled
exec /opt/venv/bin/python -W ignore -m pbt "$@"
