#!/bin/bash
# Builds the rig (wasm) from /repo's working tree. Prints the path of the wasm file.
export RUSTUP_TOOLCHAIN=nightly-2024-07-01 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTC RUSTFLAGS
export CARGO_TARGET_DIR=/verif/.build/rig
cd /verif/rig && cargo build --offline --target wasm32-unknown-unknown >&2 || exit 2
echo /verif/.build/rig/wasm32-unknown-unknown/debug/rig.wasm
