#!/bin/bash
# check.sh <property> : builds the harness against /repo's working tree and decides the property.
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=1 VERIF_DIR="$V"
unset RUSTFLAGS RUSTDOCFLAGS CARGO_BUILD_TARGET RUST_BACKTRACE
prop=$1
case "$prop" in
  P4*) crate=harness-macros; bin=mcm ;;
  P5*) crate=harness-remote; bin=mcr ;;
  *)   crate=harness; bin=mc ;;
esac
export CARGO_TARGET_DIR="$V/target"
mkdir -p "$V/target" "$V/evidence" "$V/replays"
rm -f "$V/evidence/$prop.json" "$V/target/build-$prop.log"
(
  flock 9
  # cargo decides by modification times; decide by content too
  h=$(cd /repo && cat $(find . -path ./target -prune -o \( -name '*.rs' -o -name Cargo.toml \) -print | grep -v '^./\(examples\|benches\)/' | sort) | sha256sum | cut -c1-32)
  if [ "$(cat "$V/target/repo-$crate.hash" 2>/dev/null)" != "$h" ]; then
    (cd "$V/$crate" && cargo clean -q --release --offline -p kameo -p kameo_macros -p kameo_actors 2>/dev/null)
  fi
  [ "$crate" != harness-macros ] || python3 "$V/$crate/gen.py" >/dev/null || exit 3
  if ! (cd "$V/$crate" && cargo build -q --release --offline) >"$V/target/build-$prop.log" 2>&1; then
    # P40 says which programs compile: the harness without them does, so they do not
    [ "$crate" = harness-macros ] && (cd "$V/$crate" && cargo build -q --release --offline --features bare) >/dev/null 2>&1 && exit 4
    exit 3
  fi
  echo "$h" >"$V/target/repo-$crate.hash"
) 9>"$V/target/.lock"
rc=$?
if [ $rc -eq 4 ]; then
  cp "$V/target/build-$prop.log" "$V/replays/$prop-does-not-compile.log"
  python3 "$V/$crate/gen.py" --evidence "$prop" "$V/replays/$prop-does-not-compile.log"
  grep -m3 -A6 '^error' "$V/target/build-$prop.log"
  echo "VIOLATION property=$prop replay=$V/replays/$prop-does-not-compile.log"
  exit 1
fi
if [ $rc -ne 0 ]; then
  echo "build failed:" >&2; tail -40 "$V/target/build-$prop.log" >&2
  exit 2
fi
"$V/target/release/$bin" check "$prop"
rc=$?
# neither a verdict nor a violation: the engine itself failed (a fork refused, say). Once more.
[ $rc -le 1 ] || { echo "no answer ($rc), trying again" >&2; "$V/target/release/$bin" check "$prop"; rc=$?; }
exit $rc
