#!/bin/bash
# Builds the harness once (check.sh rebuilds what changed in /repo).
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg verif_hooks -Awarnings"
cargo build --release --offline --locked --manifest-path harness/Cargo.toml --target-dir "$PWD/.build"
