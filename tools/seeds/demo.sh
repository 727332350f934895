#!/bin/bash
# Builds main.rs beside this file against the crate in the current directory and runs it:
# exit 0 if the property holds for what it does, nonzero otherwise.
set -eu
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d /tmp/zippity-demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$D/main.rs" "$D/common.rs" "$W/src/"
cp "$R/Cargo.lock" "$W/"
cat >"$W/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
zippity = { path = "$R", features = [@FEATURES@] }
tokio = { version = "1", features = ["fs", "rt", "io-util"] }
@DEPS@
[profile.dev]
debug = false
[workspace]
END
cd "$W"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" DEMO_DIR="$W/scratch"
unset RUSTFLAGS || true
mkdir "$DEMO_DIR"
cargo build -q --offline
timeout 120 "$W/target/debug/demo"
