#!/bin/bash
# nothing to compile: the checks import /repo's current tree and encode it on every run
set -e
cd "$(dirname "$0")"
chmod +x run.sh
/opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, jax, numpy
print("z3", z3.get_version_string(), "jax", jax.__version__)
P
