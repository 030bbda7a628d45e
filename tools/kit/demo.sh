#!/usr/bin/env bash
# Builds and runs main.rs (beside this file) against the crate in the current directory.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd -P)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cp "$here/Cargo.lock" "$tmp/"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"

[workspace]

[dependencies]
pkstl = { path = "$repo", features = ["bin", "cbor", "json"] }
ring = "0.16.9"
flate2 = "1.0.13"
serde = { version = "1.0.*", features = ["derive"] }
serde_json = "1.0.40"
serde_cbor = "0.10.2"
bincode = "1.2.0"
T
cd "$tmp" || exit 3
export RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
cargo build --offline --quiet || exit 3
timeout 200 "$tmp/target/debug/demo"
