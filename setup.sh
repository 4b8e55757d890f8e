#!/bin/bash
# Nothing to build: checks load /repo's sources directly. Verify the interpreter has what the simulator needs.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
python3-vt - <<'PY'
import sys
assert sys.version_info >= (3, 12), sys.version
import networkx
import numpy
import scipy
import sim.runner
print("simulator ready on", sys.version.split()[0])
PY
