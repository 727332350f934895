#!/bin/bash
# Builds the checker offline (both with and without the state hook).
set -eu
V=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
mkdir -p "$V/target" "$V/evidence" "$V/replays"
cd "$V/mc"
RUSTFLAGS="--cfg zippity_verif" CARGO_TARGET_DIR="$V/target/hook" cargo build --release --offline --locked
# The fallback of check.sh, for trees that the hook does not fit
RUSTFLAGS="" CARGO_TARGET_DIR="$V/target/nohook" cargo build --release --offline --locked || true
