#!/bin/bash
# Builds the harness (with edge instrumentation of the library) against /repo's current working tree, offline.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here/harness" || exit 2
mkdir -p target
exec 9>target/.build.lock
flock 9
export CARGO_TARGET_DIR="$here/harness/target" RUSTC_WRAPPER="$here/harness/rustc-wrap.sh" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
# rebuild by content, not by modification times
stamp="$( { cat /repo/Cargo.toml; find /repo/src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } 2>/dev/null | sha256sum)"
if [ "$(cat target/.stamp 2>/dev/null)" != "$stamp" ]; then
  rm -f target/.stamp
  cargo clean --offline -q -p jbcrs >/dev/null 2>&1
fi
log="$(mktemp)"
if cargo build --offline -q >"$log" 2>&1; then
  rm -f "$log"
  echo "$stamp" > target/.stamp
  exit 0
fi
grep -E -A12 '^error' "$log" | head -60
rm -f "$log"
exit 2
