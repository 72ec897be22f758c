#!/bin/bash
# usage: dump.sh OUT.json   -- type-check /repo's working tree with the extractor and write its MIR facts
set -e
OUT=$(realpath -m "${1:?}")
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH="$PATH:/root/.cargo/bin" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTUP_TOOLCHAIN RUSTFLAGS
REPO=${SA_REPO:-/repo}
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH="$SYS/lib"
DRV="$HERE/.build/driver/release/mirdump"
[ "$DRV" -nt "$HERE/driver/src/main.rs" ] || CARGO_TARGET_DIR="$HERE/.build/driver" cargo +nightly build --release --offline --manifest-path "$HERE/driver/Cargo.toml" >&2
[ -e "$REPO/Cargo.lock" ] || cp /opt/vp/lock/Cargo.lock "$REPO/Cargo.lock"
TD="${SA_TARGET:-$HERE/.build/target}"
mkdir -p "$TD"
exec 9>"$TD/.lock"; flock 9
# cargo's freshness cache would skip the wrapper
find "$TD" -maxdepth 4 -type d \( -path '*/.fingerprint/templito-*' -o -path '*/build/templito' \) -prune -exec rm -r {} + 2>/dev/null || true
export CARGO_TARGET_DIR="$TD" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true
rm -f "$OUT"
MIRDUMP_OUT="$OUT" MIRDUMP_CRATE=templito RUSTC_WORKSPACE_WRAPPER="$DRV" \
  RUSTFLAGS="-Zmir-opt-level=0 -Awarnings" cargo +nightly check --offline --lib --manifest-path "$REPO/Cargo.toml" >&2
[ -s "$OUT" ]
