#!/bin/bash
# Nothing to build: the checks import /repo's working tree. Only verifies the interpreter and imports.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec /opt/venv/bin/python -c "import numpy, pandas, xarray, numba, rasterio, pyproj, scipy; print('ok')"
