#!/bin/bash
# plant.sh ID PROP: records the uncommitted change in /repo as seeded/ID and confirms it.
# seeded/ID/main.rs has to exist. With an existing patch and a clean tree, confirms again.
ID=$1; D=/verif/seeded/$ID
cp /verif/tools/demo.sh "$D/demo.sh"; grep -q "mod util" "$D/main.rs" && cp /verif/tools/demo_util.rs "$D/util.rs"
if git -C /repo diff --quiet; then git -C /repo apply "$D/patch.diff" || exit 1; else git -C /repo diff > "$D/patch.diff"; fi
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
bash /tmp/stable.sh | tail -3
cd /repo; timeout 300 bash "$D/demo.sh" > /tmp/demo.out 2>&1; echo "demo patched rc=$? (want nonzero): $(tail -2 /tmp/demo.out | cut -c1-200)"
cd /verif; T0=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick bash check.sh $P > /tmp/check.out 2>&1; echo "check $P rc=$? $(grep -m1 VIOLATION /tmp/check.out) $(($(date +%s)-T0))s"
git -C /repo checkout -q -- .
cd /repo; timeout 300 bash "$D/demo.sh" > /tmp/demo.out 2>&1; echo "demo clean rc=$? (want 0): $(tail -1 /tmp/demo.out | cut -c1-200)"
