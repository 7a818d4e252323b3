#!/bin/bash
# replay.sh FILE: re-executes a recorded violation exactly; exit 1 if it is reproduced.
HERE=$(cd "$(dirname "$0")" && pwd)
bash "$HERE/build.sh" || exit 4
export VERIF_ROOT=$HERE
exec "$HERE/sim/target/release/sim" replay "$1"
