#!/bin/bash
# developer build
. /opt/vp/env.sh; unset CARGO_INCREMENTAL; export CARGO_TARGET_DIR=/verif/target
cd /verif/harness && cargo build --release --offline 2>&1 | grep -E "^error" -A12 | head -${1:-80}
