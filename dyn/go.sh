#!/bin/bash
# dyn/go.sh PROP search SEED BUDGET OUT [only] | PROP replay FILE
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONPATH=${PYVC_SRC:-/repo/src} NUMBA_NUM_THREADS=2 OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=2
exec /opt/venv/bin/python "$(dirname "$0")/fw.py" "$@"
