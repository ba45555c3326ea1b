#!/bin/bash
# run.sh <PROPERTY> [quick|thorough] [--replay FILE]: runs one check against /repo's working tree.
# Everything OpenMDAO/Aviary writes goes to a scratch directory that is removed at the end.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
export PATH="/opt/venv/bin:$PATH"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export TESTFLO_RUNNING=1 OPENMDAO_REPORTS=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export OPENMDAO_USE_MPI=0 PYTHONWARNINGS=ignore
export VERIF_DIR="$HERE" VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO:$HERE"
SCRATCH="$(mktemp -d /tmp/verif_mc.XXXXXX)" || exit 2
export VERIF_SCRATCH="$SCRATCH"
cd "$SCRATCH" || exit 2
/opt/venv/bin/python -m mc.run "$@" 2> >(grep -v OMDeprecationWarning >&2)
rc=$?
cd /
rm -rf "$SCRATCH"
exit $rc
