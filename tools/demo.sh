#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory and runs it.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"
cp "$HERE"/*.rs "$D/src/"
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
parquet2 = { path = "$REPO", features = ["async"] }
parquet-format-safe = { version = "0.2", features = ["async"] }
futures = "0.3"
[profile.dev]
debug = false
T
[ -f "$REPO/Cargo.lock" ] && cp "$REPO/Cargo.lock" "$D/Cargo.lock"
export CARGO_TARGET_DIR="$D/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
cd "$D" && cargo build --offline --quiet 2>"$D/log" || { tail -30 "$D/log"; exit 4; }
"$D/target/debug/demo"
