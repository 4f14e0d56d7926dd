#!/bin/bash
# Nothing to compile: the checks are Python and import /repo/src directly.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence" "$here/out/replay"
export MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache
export MPLCONFIGDIR="${TMPDIR:-/tmp}/verif-mpl" HOME=/root
PYTHONPATH=/repo/src:$here /opt/venv/bin/python -W ignore -c "import glimpse, mc.core; print('ok', glimpse.__file__)"
