#!/bin/bash
# Builds the simulator (harness + the crate in /repo's working tree) offline, once with each of
# the crate's two implementations of lz4.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$HERE/sim" || exit 1
build() { # DIR ARGS
    local dir=$1; shift
    env -u CARGO_INCREMENTAL CARGO_TARGET_DIR="$HERE/sim/$dir" cargo build --release --offline --quiet "$@" 2>"$HERE/sim/$dir.log"
}
build target-flex --no-default-features --features flex &
build target; a=$?
wait $!; b=$?
[ $a = 0 ] || { tail -50 "$HERE/sim/target.log"; exit 1; }
[ $b = 0 ] || { tail -50 "$HERE/sim/target-flex.log"; exit 1; }
