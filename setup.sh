#!/bin/bash
# nothing is built ahead of a check: every check imports /repo's current tree
set -e
export PATH=/opt/venv/bin:$PATH
cd "$(dirname "$0")"
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 python -c "import numpy, numba, netCDF4, scipy, yaml; print('ok')"
