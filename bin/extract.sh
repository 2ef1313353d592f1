#!/bin/bash
# usage: extract.sh OUTDIR [REPO]   - type-check REPO with the extraction driver
set -u
export PATH=/root/.cargo/bin:$PATH HOME=${HOME:-/root} CARGO_NET_OFFLINE=true
V="$(cd "$(dirname "$0")/.." && pwd)"
OUT=$(mkdir -p "$1" && cd "$1" && pwd); REPO=${2:-/repo}
mkdir -p "$OUT"
DRV="$V/build/driver/release/rl-extract"
if [ ! -x "$DRV" ] || [ "$V/driver/src/main.rs" -nt "$DRV" ] || [ "$V/driver/src/json.rs" -nt "$DRV" ]; then
  (cd "$V/driver" && cargo +nightly build --release --offline --target-dir "$V/build/driver") >"$OUT/driver.log" 2>&1 || { echo "driver build failed" >&2; cat "$OUT/driver.log" >&2; exit 3; }
  touch "$DRV"
fi
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH="$SYS/lib:${LD_LIBRARY_PATH:-}"
export RL_OUT="$OUT" RUSTC_WORKSPACE_WRAPPER="$DRV"
# the workspace member must be re-analysed on every run
rm -rf "$V/build/target/debug/build/rust_light" "$V/build/target/debug/incremental" "$V"/build/target/debug/.fingerprint/rust_light-*
cd "$REPO" && cargo +nightly check --offline --lib --bins --target-dir "$V/build/target" >"$OUT/cargo.log" 2>&1 || { echo "cargo check failed" >&2; tail -40 "$OUT/cargo.log" >&2; exit 4; }
exit 0
