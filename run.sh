#!/bin/bash
# usage: run.sh <PROPERTY> <quick|thorough> [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=${HOME:-/root} LANG=C.UTF-8
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
[ -d /opt/venv/mplconfig ] && export MPLCONFIGDIR=/opt/venv/mplconfig
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH NUMBA_DISABLE_JIT NUMBA_BOUNDSCHECK NUMBA_OPT
prop="$1"; tier="${2:-quick}"; shift 2
exec python -W ignore "$here/lib/harness.py" "$prop" "$tier" "$@"
