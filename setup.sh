#!/bin/bash
# Builds everything once from the committed files (offline).
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
unset RUSTFLAGS RUSTDOCFLAGS CARGO_BUILD_TARGET RUST_BACKTRACE
export CARGO_TARGET_DIR="$V/target"
mkdir -p "$V/target" "$V/evidence" "$V/replays"
for c in harness harness-macros harness-remote; do
  [ -f "$V/$c/Cargo.toml" ] || continue
  [ $c != harness-macros ] || python3 "$V/$c/gen.py" || exit 1
  (cd "$V/$c" && cargo build --release --offline) || exit 1
done
