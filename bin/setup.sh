#!/bin/bash
# builds the extractor and the harness from the committed files
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
unset RUSTFLAGS CARGO_TARGET_DIR
[ -f "$V/replay/Cargo.lock" ] || cp /repo/Cargo.lock "$V/replay/Cargo.lock"
(cd "$V/extract" && cargo build --offline)
(cd "$V/replay" && cargo build --offline)
