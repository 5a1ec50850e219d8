#!/bin/bash
# catch.sh [ID...]: applies planted changes to /repo one at a time and runs the check of their property.
# CHECKS="C11 C12" runs those checks instead.
cd "$(dirname "$0")/.." || exit 1
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 1; }
ids="$*"; [ -n "$ids" ] || ids=$(ls seeded)
for id in $ids; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    for c in ${CHECKS:-$p}; do
        s=$(date +%s)
        bash check.sh $c > /tmp/catch.log 2>&1; rc=$?
        v=$(grep -c "^VIOLATION property=$c " /tmp/catch.log)
        case $rc$v in 11) r=caught;; 00) r="not caught";; *) r="?? rc=$rc v=$v";; esac
        echo "$id ($p) by $c: $r, $(($(date +%s)-s)) s: $(grep -m1 -E '^run ' /tmp/catch.log | cut -c1-150)"
    done
    git -C /repo checkout -q -- .
done
