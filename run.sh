#!/bin/bash
# usage: bash /verif/run.sh CHECK [quick|thorough]     e.g. run.sh C01 quick
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root LANG=C.UTF-8 MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX=/nonexistent-pycache
export MPLCONFIGDIR="${TMPDIR:-/tmp}/verif-mpl"
export CPL_LOG=/dev/null
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENCV_FOR_THREADS_NUM=1
export PYTHONPATH="${VERIF_REPO:-/repo}/src:$here"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -m mc.main "$1"
