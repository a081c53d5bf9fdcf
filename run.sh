#!/bin/bash
# bash run.sh <property> [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
PY=/opt/venv/bin/python
exec "$PY" -m mc.cli "$@"
