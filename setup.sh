#!/bin/bash
# Nothing is compiled: makes sure that the interpreter, torch and the code under check are there.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p evidence
export OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore -c "from mc import env; env.load_nnj(); print('ready')"
