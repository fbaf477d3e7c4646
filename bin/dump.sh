#!/bin/bash
# Re-reads /repo's working tree: builds brec and the harness with the MIR-dumping compiler
# driver (no linking, nothing is run) and leaves brec.json / brec_harness.json in $1.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
OUT=${1:?out dir}
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
SYS=$(rustc --print sysroot)
export LD_LIBRARY_PATH="$SYS/lib:${LD_LIBRARY_PATH:-}"
export CARGO_TARGET_DIR="$V/.cache/target"
DRV="$V/.cache/driver/release/mirdump"
mkdir -p "$OUT"; OUT=$(cd "$OUT" && pwd)
rm -f "$OUT/brec.json" "$OUT/brec_harness.json"
# driver: build if missing or older than its source
if [ ! -x "$DRV" ] || [ "$V/driver/src/main.rs" -nt "$DRV" ]; then
  (cd "$V/driver" && RUSTFLAGS= CARGO_TARGET_DIR="$V/.cache/driver" cargo build --release --offline) >"$OUT/driver.log" 2>&1 || { echo "driver build failed"; tail -20 "$OUT/driver.log"; exit 3; }
fi
export MIRDUMP_OUT="$OUT" MIRDUMP_WS="brec,brec_harness" MIRDUMP_CRATES="brec,brec_harness"
export RUSTC_WRAPPER="$DRV"
export RUSTFLAGS="-Zmir-opt-level=0 -Zalways-encode-mir -Coverflow-checks=on -Cdebug-assertions=off -Awarnings"
cd "$V/harness"
# never trust cargo's freshness for anything that comes from /repo or the harness
rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/brec* "$CARGO_TARGET_DIR"/debug/build/brec* "$CARGO_TARGET_DIR"/debug/deps/*brec* 
cargo check --offline >"$OUT/build.log" 2>&1
rc=$?
[ $rc -eq 0 ] && [ -s "$OUT/brec.json" ] && [ -s "$OUT/brec_harness.json" ] && exit 0
tail -60 "$OUT/build.log"
exit 2
