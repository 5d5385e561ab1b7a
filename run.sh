#!/bin/bash
# run.sh PROPERTY [quick|thorough] -- decide one property on the current /repo tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m sx.main "$1" --tier "${2:-${VERIF_TIER:-quick}}"
