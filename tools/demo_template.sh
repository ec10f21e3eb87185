#!/bin/bash
# Builds main.rs (beside this file) against the kameo in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
kameo = { path = "$repo" FEATURES }
kameo_actors = { path = "$repo/actors" }
tokio = { version = "1", features = ["full"] }
futures = "0.3"
serde = { version = "1", features = ["derive"] }
TOML
cd "$d" || exit 3
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo build -q --offline || exit 3
timeout 100 "$d/target/debug/demo"
