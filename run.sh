#!/bin/bash
# run.sh <property id> quick|thorough        run a check
# run.sh <property id> replay <file>         re-execute a recorded violation
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 BROWSER=/bin/true
unset PYTHONPATH
export MPLCONFIGDIR="${TMPDIR:-/tmp}/vb_mpl"
exec /opt/venv/bin/python -W ignore run_check.py "$@"
