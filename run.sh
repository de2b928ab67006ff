#!/bin/bash
# usage: run.sh <property id> [quick|thorough]
# Runs one check against /repo's working tree.  Everything it writes outside evidence/ goes to temporary folders.
HERE=$(cd "$(dirname "$0")" && pwd)
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=${VERIF_REPO:-/repo}:$HERE/lib PYTHONHASHSEED=${VERIF_HASHSEED:-0} TZ=UTC LANG=C.UTF-8 HOME=${HOME:-/root}
export PYTHONWARNINGS=ignore
cd "$HERE" || exit 2
exec /opt/venv/bin/python -W ignore "$HERE/checks/$(echo "$ID" | tr A-Z a-z).py" "$TIER"
