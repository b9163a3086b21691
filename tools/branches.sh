#!/bin/sh
# where a check forks:  tools/branches.sh C18 --only files
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH=/opt/venv/lib/python3.12/site-packages:/repo/src:/opt/veriftools/pyvenv/lib/python3.12/site-packages
exec /opt/venv/bin/python "$(dirname "$0")/branches.py" "$@"
