#!/bin/bash
# bash run.sh <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--case N]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$here:${QV_REPO_SRC:-/repo/src}"
exec /opt/venv/bin/python -m qv.core "$@"
