#!/bin/bash
# Builds the compiled packages of /repo once (checks rebuild what changed).
cd "$(dirname "$0")" || exit 1
export PATH=/opt/vp/venv/bin:$PATH CC=gcc CXX=g++ FC=gfortran F90=gfortran PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence replays .build
/opt/vp/venv/bin/python -W ignore -m mc.build
