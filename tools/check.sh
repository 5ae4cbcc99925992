#!/bin/bash
# check.sh PID quick|thorough: exit 0 (held on everything explored) or 1 with a VIOLATION line
cd "$(dirname "$0")/.." || exit 0
export VERIF_TIER="${2:-quick}" VERIF_SEED="${VERIF_SEED:-1}" PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
exec python3-vt verifier/check.py "$1"
