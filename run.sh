#!/bin/bash
# usage: run.sh <PROPERTY> quick|thorough
here="$(cd "$(dirname "$0")" && pwd)"
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore JAX_ENABLE_X64=1 TF_CPP_MIN_LOG_LEVEL=3
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
cd "$here"
exec /opt/venv/bin/python -m checks.run "$1" "$VERIF_TIER"
