#!/bin/bash
# Nothing to build: only check that the interpreter and the working tree of the repository can be used.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$HERE/evidence"
TZ=UTC MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$HERE:/repo" /opt/venv/bin/python -W ignore -c 'import timeseria.datastructures, vt.core'
