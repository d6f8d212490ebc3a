#!/bin/bash
cd "$(dirname "$0")"; export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 OMP_NUM_THREADS=1 TZ=UTC PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -B -m mc.dev "$@"
