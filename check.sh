#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
set -u
cd "$(dirname "$0")"
P="$1"; export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"; export VERIF_SEED="${VERIF_SEED:-1}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RAYON_NUM_THREADS=1
unset CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS="--cfg verif_hooks -Awarnings"
T="$PWD/.build"
FEAT=""
if ! cargo build --release --offline --locked --manifest-path harness/Cargo.toml --target-dir "$T" >"$T.log" 2>&1; then
  tail -40 "$T.log"; echo "BUILD-ERROR property=$P"; exit 3
fi
ulimit -v 24000000 2>/dev/null
exec timeout ${VH_TIMEOUT:-850} "$T/release/vh" "$P"
