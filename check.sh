#!/bin/bash
# check.sh PROPERTY [TIER]: builds the harness from /repo's working tree and decides the property.
cd /verif || exit 2
[ -n "$2" ] && export VERIF_TIER="$2"
log=$(bash /verif/build.sh 2>&1) || { echo "$log" | tail -40; echo "the harness does not build against /repo"; exit 2; }
exec /verif/target/x86_64-unknown-linux-gnu/debug/harness check "$1"
