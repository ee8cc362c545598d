#!/bin/bash
# Run each seeded bug's check on a scratch copy of /repo with the bug applied.  Usage: tools/trybugs.sh [ids]
cd "$(dirname "$0")/.."
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
one() {
    id=$1
    prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    d=$(mktemp -d /tmp/tb_XXXXXX)
    git clone -q "${BASE:-/repo}" "$d/r" && git -C "$d/r" apply "$PWD/seeded/$id/patch.diff" || { echo "$id PATCH FAILS"; rm -rf "$d"; return; }
    SX_EVIDENCE=$d/ev SX_REPO=$d/r timeout 900 python3-vt run.py $prop > $d/out 2>&1
    rc=$?
    v=$(grep -c "^VIOLATION property=$prop" $d/out)
    if [ $rc = 1 ] && [ "$v" -ge 1 ]; then echo "$id $prop caught: $(grep -m1 '^violated' $d/out)"; else echo "$id $prop MISSED rc=$rc $(tail -1 $d/out | cut -c1-150)"; fi
    rm -rf "$d"
}
export -f one
for i in $ids; do one $i; done
