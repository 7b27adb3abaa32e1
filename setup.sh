#!/bin/bash
# Builds the framework from the committed files.
cd "$(dirname "$0")" || exit 2
export PATH="$PATH:/root/.cargo/bin"
sim/build.sh && cli/build.sh && sendsync/build.sh
