#!/bin/bash
# determinism.sh [RUNS]: every property's first RUNS runs, forwards in one process and backwards in
# another, must have the same traces, virtual times, step counts, faults and outcomes.
cd "$(dirname "$0")/.." || exit 2
N=${1:-500}; bad=0; A=sim/target/release/sim; B=sim/target-flex/release/sim
for p in $($A list | cut -d' ' -f1); do
  for s in $A $B; do
    a=$($s hash "$p" 0 "$N" 2>/dev/null | sort -n | md5sum); b=$($s hash "$p" "$N" 0 2>/dev/null | sort -n | md5sum)
    if [ "$a" != "$b" ]; then echo "$p DIFFERS ($s)"; bad=1; fi
  done
  echo "$p $N runs compared"
done
exit $bad
