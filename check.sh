#!/bin/bash
# usage: check.sh PROPERTY [--replay FILE]     (tier: VERIF_TIER, seed: VERIF_SEED)
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh
export OMP_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B rv/main.py "$@"
