#!/bin/bash
# usage: run.sh <ID> [quick|thorough] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
tier="${1:-${VERIF_TIER:-quick}}"; [ $# -gt 0 ] && shift
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_REPO="${VERIF_REPO:-/repo}"
scratch="$(mktemp -d /tmp/verif-run.XXXXXX)"
export HOME="$scratch" TMPDIR="$scratch" XDG_CACHE_HOME="$scratch/c" XDG_CONFIG_HOME="$scratch/k"
export NUMBA_CACHE_DIR="$scratch/numba"
export HYPOTHESIS_STORAGE_DIRECTORY="$scratch/hyp"
cd "$here" || exit 3
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONPATH="$here" "$PY" -W ignore -m vlib.main "$id" "$tier" "$@"
rc=$?
case "$scratch" in /tmp/verif-run.*) rm -rf -- "$scratch";; esac
exit $rc
