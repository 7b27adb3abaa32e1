#!/bin/bash
# Builds the shipped program from /repo's working tree, as cargo builds it, and the shim.
cd "$(dirname "$0")" || exit 2
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
export CARGO_NET_OFFLINE=true
mkdir -p ../.build || exit 2
if [ ../.build/shim.so -ot shim.c ] || [ ! -e ../.build/shim.so ]; then
  gcc -O1 -Wall -shared -fPIC -o ../.build/shim.so.$$ shim.c && mv ../.build/shim.so.$$ ../.build/shim.so || exit 2
fi
exec cargo build -q --offline --manifest-path /repo/Cargo.toml --target-dir "$PWD/../.build/cli" --bin algeo
