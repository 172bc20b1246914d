#!/bin/bash
# Build the harness once, offline, so that the checks only have to rebuild what changed.
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
(cd harness && cargo build --release --offline) || exit 1
# the same with AddressSanitizer and for Miri (C24), and what the generated programs of C23 need;
# if one of these fails, its check says so
(cd harness && CARGO_TARGET_DIR="$PWD/../target/asan" RUSTFLAGS="-Zsanitizer=address" cargo +nightly build --profile san --offline --target x86_64-unknown-linux-gnu) || true
(cd harness && CARGO_TARGET_DIR="$PWD/../target/miri" MIRIFLAGS="-Zmiri-disable-isolation" cargo +nightly miri run --offline -- --nothing) || true
(cd harness && SV_ROOT="$PWD/../work/setup" SV_SCALE=0.01 "$CARGO_TARGET_DIR/release/sv-check" C23) || true
for c in C25 C26 C27; do
  (cd harness && SV_ROOT="$PWD/../work/setup" SV_SCALE=0.001 "$CARGO_TARGET_DIR/release/sv-check" $c) || true
done
exit 0
