#!/bin/bash
# run.sh ID [--replay FILE]: one check against /repo's working tree (tier from VERIF_TIER, default quick).
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
unset PYTHONPATH
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -m mc.run "$@"
