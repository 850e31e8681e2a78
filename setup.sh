#!/bin/bash
# builds the verification condition generator with the real crates, offline
set -e
cd "$(dirname "$0")/sym"
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true
cargo build --release --offline
cd ../ffi
cargo build --release --offline
cd ../kani
unset RUSTUP_TOOLCHAIN
cargo kani --features hooks --target-dir target --only-codegen
