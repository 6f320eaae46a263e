#!/bin/bash
# check.sh <property> [driver options]: runs one property's monitors against /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
PY="${VERIF_PY:-/opt/pvenv/bin/python}"
scratch="$(mktemp -d /tmp/pyten-check.XXXXXX)"
trap 'rm -rf "$scratch"' EXIT
export TMPDIR="$scratch" MPLCONFIGDIR="$scratch/mpl" MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc" PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH
"$PY" -W ignore "$here/harness/run.py" "$@"
