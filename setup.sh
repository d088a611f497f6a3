#!/bin/bash
# Nothing is built ahead of time: every check builds what it needs from /repo's current tree.
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python - <<'PY'
import sys
sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, hypothesis
print("setup ok: numpy", numpy.__version__, "hypothesis", hypothesis.__version__)
PY
