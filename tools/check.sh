#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds the simulator from /repo's working tree and runs the check.
V=$(cd "$(dirname "$0")/.." && pwd)
P=$1; TIER=${2:-${VERIF_TIER:-quick}}; SEED=${VERIF_SEED:-1}
FLAVOUR=${3:-plain}
BIN=$(python3 "$V/tools/build.py" $FLAVOUR) || { echo "the simulator does not build against the current tree" >&2; exit 2; }
exec "$BIN" check --property "$P" --tier "$TIER" --seed "$SEED" --verif "$V"
