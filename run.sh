#!/bin/bash
# run.sh ID [quick|thorough] [--replay FILE]: one check of one property.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
export VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
export SB_REPO="${SB_REPO:-/repo}"
export PYTHONPATH="$SB_REPO:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
export PYTHONHASHSEED=0 LC_ALL=C.UTF-8
unset PYTHONSTARTUP PYTHONHOME PYTHONOPTIMIZE
py=/opt/venv/bin/python
cd "$here" && exec "$py" -W ignore -m mon.core "$id" "$tier" "$@"
