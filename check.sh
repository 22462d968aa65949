#!/bin/bash
# check.sh <crate> <property> <quick|thorough>: builds the simulator from /repo's working tree, runs the check.
set -u
cd "$(dirname "$0")"
export VERIF_DIR=$PWD RUSTUP_TOOLCHAIN=nightly-2024-12-30 CARGO_TARGET_DIR=$PWD/target CARGO_NET_OFFLINE=true
export REPO_HASH=$(cd /repo && find src migrations clade object_store_factory datafusion_remote_tables -name target -prune -o -type f -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)
export VERIF_TIER=$3
log=$(mktemp)
if ! (cd "$1" && cargo build --offline -q) >"$log" 2>&1; then
  grep -v "^warning" "$log" | tail -40
  rm -f "$log"
  echo "HARNESS-ERROR: the simulator $1 does not build against /repo"
  exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/$1" check "$2"
