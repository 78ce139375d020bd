#!/bin/bash
# usage: check.sh C05 [--replay FILE] ; tier and seed from VERIF_TIER / VERIF_SEED
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -m rzbv.engine "$@"
