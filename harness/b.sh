#!/bin/bash
cd /verif/harness; RUSTFLAGS="--cfg verif_hooks" cargo build --release --offline --target-dir /verif/.build 2>&1 | grep -A12 "^error" | head -${1:-80}
