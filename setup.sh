#!/bin/bash
# offline; only checks that the interpreter, the libraries and the repository import
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, '/repo/src')
import numpy, xarray, netCDF4, pandas, hatanaka, ncompress, georinex
import mc.core, mc.docs, mc.observe
print('setup ok', georinex.__file__)"
