#!/bin/bash
# Builds the explorer once, so that a broken toolchain shows here. Every check
# builds again what depends on /repo.
set -eu
cd "$(dirname "$0")/mc"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true
cargo build --offline --profile light --lib
cargo build --offline --release --lib
