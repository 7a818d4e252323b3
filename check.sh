#!/bin/bash
# check.sh PROP: builds the simulator against /repo's working tree and decides one property.
# VERIF_SEED (default 1) seeds every choice, VERIF_TIER is quick or thorough.
HERE=$(cd "$(dirname "$0")" && pwd)
bash "$HERE/build.sh" || { echo "BUILD FAILED"; exit 4; }
export VERIF_ROOT=$HERE
exec "$HERE/sim/target/release/sim" check "$1"
