#!/bin/bash
# Nothing to build: checks import the sources of /repo directly. Verify the interpreter and the harness.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
mkdir -p evidence replays
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
exec /opt/venv/bin/python -B -W ignore -c "
import sys; sys.path.insert(0, '.'); sys.path.insert(0, '/repo/src')
import numpy, scipy, jax, quocslib
from vf import core, gen, rec, refs
print('ready', numpy.__version__, jax.__version__)"
