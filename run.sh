#!/bin/bash
# run.sh <property> [quick|thorough]: one check, against /repo's working tree (pure Python: nothing to build)
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore MPLBACKEND=Agg
exec /opt/venv/bin/python check.py "$1" --tier "$VERIF_TIER"
