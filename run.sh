#!/bin/bash
# run.sh <property id> [quick|thorough|--replay FILE]
. /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 MPLBACKEND=Agg
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
cd "$HERE" || exit 2
exec "${PY:-/opt/venv/bin/python}" "$HERE/vlib/main.py" "$@"
