#!/bin/bash
cd "$(dirname "$0")" || exit 2
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
export CARGO_NET_OFFLINE=true
exec cargo check -q --offline --target-dir "$PWD/../.build/sendsync"
