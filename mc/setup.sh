#!/bin/bash
# Nothing to build: check that the package and the framework can be imported.
export PYTHONDONTWRITEBYTECODE=1
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/.." || exit 1
mkdir -p evidence replays
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '.')
import numpy, pandas, pvlib, shapely
from mc import core
print('framework ready')"
