#!/bin/bash
# usage: run.sh C01 [--tier quick|thorough] [--replay file]
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
SCR=$(mktemp -d /tmp/mcrun.XXXXXX) || exit 2
trap 'rm -rf "$SCR"' EXIT
mkdir -p "$SCR/tmp" "$SCR/home"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$SCR/pyc" MPLBACKEND=Agg PYTHONHASHSEED=0 \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC TMPDIR="$SCR/tmp" \
  HOME="$SCR/home" MPLCONFIGDIR="$SCR/home" PYTHONWARNINGS=ignore HDF5_USE_FILE_LOCKING=TRUE
"$PY" -B -m mc.main "$@"
