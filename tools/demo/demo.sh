#!/bin/bash
# Builds a small driver around the crates of the current directory in a scratch copy of its sources
# and runs demo.js beside this file with it. Exit 0: the behaviour is right.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2025-05-06
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR="$REPO/target"
W=$(mktemp -d) || exit 3
trap 'rm -rf -- "$W"' EXIT
cp -r "$REPO/Cargo.toml" "$REPO/Cargo.lock" "$REPO/packages" "$REPO/spec" "$W/" || exit 3
sed -i 's#^members = \[#members = ["demo",#' "$W/Cargo.toml"
mkdir "$W/demo" && cp "$HERE/Cargo.toml" "$HERE/main.rs" "$W/demo/" || exit 3
(cd "$W" && cargo build -p demo -p swc-plugin-coverage --offline --config 'build.target-dir="'"$CARGO_TARGET_DIR"'"') || exit 3
cp "$CARGO_TARGET_DIR/debug/demo" "$W/run" || exit 3
if [ -f "$HERE/demo.js" ]; then DEMO="$W/run" SCRATCH="$W" node "$HERE/demo.js"; else "$W/run"; fi
