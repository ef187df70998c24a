#!/bin/bash
# usage: run.sh <property id> [quick|thorough]; builds the harness over /repo's working tree and runs one check.
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$ROOT VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
exec python3 "$ROOT/tools/run.py" "$ID" "$TIER"
