#!/bin/bash
# offline self-test of the harness: interpreter, imports from /repo, scratch space
cd "$(dirname "$0")" || exit 1
REPO="${VERIF_REPO:-/repo}"
PYTHONPATH="$REPO/shepherd_core:$REPO/shepherd_data" PYTHONDONTWRITEBYTECODE=1 TZ=UTC MPLBACKEND=Agg PWNLIB_NOTERM=1 \
  XDG_CACHE_HOME=$(mktemp -d) /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
import numpy, h5py, pydantic, yaml
from vlib import core
print('setup ok', numpy.__version__, h5py.__version__, pydantic.VERSION)
"
