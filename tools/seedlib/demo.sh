#!/bin/bash
# builds the demonstration against the s3-server crate in the current directory and runs it in a scratch directory
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints warn" RUSTC_WRAPPER= CARGO_INCREMENTAL=0
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/c/src" "$t/run/a/b/c"
cp "$here"/*.rs "$t/c/src/"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$t/c/Cargo.toml"
cp "$repo/Cargo.lock" "$t/c/Cargo.lock"
( cd "$t/c" && CARGO_TARGET_DIR="$t/target" cargo build --offline -q ) || exit 3
chmod 755 "$t"
cd "$t/run/a/b/c" && TZ=${DEMO_TZ:-America/New_York} timeout 200 "$t/target/debug/demo"
rc=$?
cd /
exit $rc
