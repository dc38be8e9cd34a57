#!/bin/bash
# runseeds.sh [id ...]: applies each planted change to a scratch copy and runs its property's quick check there
cd "$(dirname "$0")/.." || exit 2
for d in ${@:-$(ls seeded)}; do
    W=/tmp/runseed; rm -rf /tmp/runseed; cp -a /repo $W
    git -C $W apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
    p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
    t0=$(date +%s)
    out=$(SYMX_REPO=$W ./check.sh $p quick 2>&1); rc=$?
    echo "$d $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -c '^VIOLATION' <<< "$out") :: $(grep -m1 '^VIOLATION\|ERROR\|Error' <<< "$out" | cut -c1-220)"
done
rm -rf /tmp/runseed
