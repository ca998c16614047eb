#!/bin/bash
# tools/trybugs.sh [ID...]: run the check of each planted bug's property on a scratch copy of the repository with the bug applied.
cd "$(dirname "$0")/.." || exit 1
REPO=${UDAPI_REPO:-/repo}
for d in ${@:-$(ls seeded)}; do
    tmp=$(mktemp -d)
    git clone -q "$REPO" "$tmp/repo"
    prop=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
    git -C "$tmp/repo" apply "$PWD/seeded/$d/patch.diff" || { echo "$d: does not apply"; rm -rf "$tmp"; continue; }
    start=$(date +%s)
    out=$(UDAPI_REPO=$tmp/repo ./check $prop 2>/dev/null); rc=$?
    rm -rf "$tmp"
    echo "$d $prop rc=$rc $(( $(date +%s) - start ))s $(echo "$out" | grep -m1 VIOLATION)"
done
