#!/bin/bash
# builds the MIR dumper (nightly, rustc_private) and the analysis engine
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
(cd "$HERE/driver" && cargo +nightly build --offline)
(cd "$HERE/engine" && cargo build --release --offline)
