#!/bin/bash
# Builds the harness against /repo's current working tree, offline.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
mkdir -p target
exec 9>target/.build-lock; flock 9
# Content, not modification time, decides whether figment is rebuilt.
sum=$(cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)
if [ "$(cat target/.figment-sum 2>/dev/null)" != "$sum" ]; then
  rm -f "$PWD/target/.figment-sum"
  (cd harness && cargo clean --release --offline --locked -p figment >/dev/null 2>&1)
fi
(cd harness && cargo build --release --offline --locked 2>target.log) || { cat harness/target.log >&2; exit 1; }
rm -f "$PWD/harness/target.log"
echo "$sum" > target/.figment-sum
