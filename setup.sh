#!/bin/bash
# Nothing to compile: check that the simulator starts on /repo's working tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
DSIM_CHILD=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 \
/opt/venv/bin/python - <<'PY'
import os, sys
sys.path.insert(0, ".")
from dsim import boot
boot.boot(1)
print("simulator ready")
sys.stdout.flush()
os._exit(0)
PY
