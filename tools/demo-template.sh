#!/bin/bash
# Builds demo.rs against the crates as they are in /repo and runs it, all in a scratch directory.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "${t:?}"' EXIT
cp -a /opt/vp/ws "$t/ws"
mkdir -p "$t/target/debug" "$t/ws/demo/src"
for x in .fingerprint build deps; do cp -a --reflink=auto "/opt/vp/target/debug/$x" "$t/target/debug/$x"; done
export CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0 TMPDIR="$t"
cp "$here/demo.rs" "$t/ws/demo/src/main.rs"
sed -i '0,/^members = \[/s//&\n    "demo",/' "$t/ws/Cargo.toml"
{ printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n'; cat "$here/deps"; } >"$t/ws/demo/Cargo.toml"
cd "$t/ws/demo"
cargo build --offline 2>"$t/log" || { cat "$t/log"; exit 3; }
timeout 200 "$t/target/debug/demo"
