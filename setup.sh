#!/bin/bash
# Nothing is built ahead of time: every check imports /repo/src afresh.
cd "$(dirname "$0")" || exit 1
scratch=$(mktemp -d) || exit 1
trap 'rm -rf "$scratch"' EXIT
export NUMBA_CACHE_DIR="$scratch" MPLCONFIGDIR="$scratch" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -B -m pbt.selftest
