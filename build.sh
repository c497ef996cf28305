#!/bin/bash
# Build the simulator against /repo's current working tree (offline).
set -u
cd "$(dirname "$0")/sim" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p target
exec 9>target/.lock
flock 9
# cargo compares modification times; a checkout may carry old ones, so compare contents too
H=$(cd /repo && find aucpace spake2 srp Cargo.toml -path '*/target' -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name '*.bin' -o -name '*.md' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.repo-hash 2>/dev/null)" != "$H" ]; then
  cargo clean --offline --release -p aucpace -p spake2 -p srp >/dev/null 2>&1
  cargo clean --offline --profile dbg -p aucpace -p spake2 -p srp >/dev/null 2>&1
fi
# two builds of the code under test: as shipped, and with debug assertions and overflow checks
cargo build --profile dbg --offline -q >target/build-dbg.log 2>&1 &
B=$!
cargo build --release --offline -q >target/build.log 2>&1; R=$?
wait $B || R=$?
if [ $R = 0 ]; then
  echo "$H" >target/.repo-hash
else
  cat target/build.log target/build-dbg.log >&2
  echo "build failed" >&2
  exit 2
fi
