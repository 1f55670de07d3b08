#!/bin/bash
# usage: check.sh <PROPERTY-ID> [--tier quick|thorough] [--replay FILE]
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=${MC_OMP:-2} OPENBLAS_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1
export CC=gcc CXX=g++ FC=gfortran F90=gfortran
export PATH=/opt/vp/venv/bin:$PATH
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
cd "$HERE" || exit 2
PY=/opt/vp/venv/bin/python
[ -x $PY ] || PY=python3
exec $PY -W ignore -m mc.run "$@"
