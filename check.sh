#!/bin/bash
# usage: check.sh PROPERTY quick|thorough      (exit 0 held, 1 violated, 2 machinery error)
cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONNOUSERSITE=1
# bytecode is matched by mtime and size only, so drop what other runs left behind
REPO="${VP_REPO:-/repo}"
find "$REPO" -name __pycache__ -not -path "*/.git/*" -prune -exec /bin/rm -rf {} +
unset PYTHONPATH
PYTHONPATH="$PWD/harness:$REPO" /opt/venv/bin/python harness/core.py "$1" "${2:-quick}"
