#!/bin/bash
# Builds the harness from /repo's working tree.
cd /verif/harness || exit 2
export RUSTC_WRAPPER=/verif/harness/rustc-wrap.sh CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS
exec cargo build --offline --locked -q --target x86_64-unknown-linux-gnu
