#!/bin/bash
# check.sh ID [quick|thorough] [options]: run the runtime monitors of one property against /repo's
# working tree (VERIF_SEED seeds every random choice). Replay a witness: check.sh ID quick --replay F
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
. ./env.sh
export PYTHONPATH=$here
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
exec /opt/venv/bin/python -m vmon.run "$id" --tier "$tier" "$@"
