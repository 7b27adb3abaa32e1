#!/bin/bash
# Builds the simulator against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export RUSTC_WRAPPER="$PWD/../tools/rustc-sim.sh" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
exec cargo build -q --offline "$@"
