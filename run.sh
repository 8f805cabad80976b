#!/bin/bash
# usage: run.sh <property id> [quick|thorough] [extra args for vt.main]
# Runs one runtime-monitoring check against the working tree of the repository.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${VT_REPO:-/repo}"
# An unusual time zone for the process: nothing may depend on it
export PYTHONHASHSEED=0 TZ="XXX-12:45XXD,M9.5.0/2:45,M4.1.0/3:45" MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLCONFIGDIR="${MPLCONFIGDIR:-/root/.cache/matplotlib}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$HERE:$REPO" VT_REPO="$REPO"
unset VT_SHARD
PID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; shift; shift
exec /opt/venv/bin/python -W ignore -m vt.main "$PID" --tier "$TIER" "$@"
