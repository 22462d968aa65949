#!/bin/bash
# Builds every simulator once, so that checks only rebuild what changed in /repo.
set -u
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=nightly-2024-12-30 CARGO_TARGET_DIR=$PWD/target CARGO_NET_OFFLINE=true
export REPO_HASH=$(cd /repo && find src migrations clade object_store_factory datafusion_remote_tables -name target -prune -o -type f -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)
rc=0
for c in $(cat crates.txt); do
  (cd "$c" && cargo build --offline -q) 2>&1 | grep -E "^error" && rc=1
done
exit $rc
