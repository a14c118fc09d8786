#!/bin/bash
# dump.sh OUTDIR: compile /repo's current tree (type check only) with the MIR dumper as
# workspace wrapper; writes OUTDIR/mofmt-lib.json and OUTDIR/mofmt-bin.json.
set -e
OUT=$1
HERE=$(cd "$(dirname "$0")/.." && pwd)
REPO=${MOFMT_REPO:-/repo}
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH="$SYS/lib"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export RUSTC_WORKSPACE_WRAPPER="$HERE/driver/target/debug/mirdump"
export MIRDUMP_OUT="$OUT"
export CARGO_TARGET_DIR="$OUT/target"
mkdir -p "$OUT"
cd "$REPO"
cargo +nightly check --offline --lib --bins >"$OUT/cargo.log" 2>&1 || { cat "$OUT/cargo.log" >&2; exit 3; }
rm -rf "$OUT/target"
test -s "$OUT/mofmt-lib.json" && test -s "$OUT/mofmt-bin.json"
