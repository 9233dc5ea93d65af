#!/bin/bash
# nothing to build: the checks import /repo directly; this only verifies the tools
. /opt/vp/env.sh
cd "$(dirname "$0")/.." || exit 1
"${PY:-/opt/venv/bin/python}" - <<'PYEOF'
import sys
sys.path.insert(0, ".")
from vlib import paths
paths.setup()
import hypothesis, numpy, sympy, h5py, mpi4py
import pylbm
print("hypothesis", hypothesis.__version__, "pylbm from", pylbm.__file__)
PYEOF
