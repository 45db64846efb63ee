#!/bin/bash
# Runs demo.js beside this file over the compiled plugin of the current directory (built by build.sh).
HERE=$(cd "$(dirname "$0")" && pwd)
exec node "$HERE/demo.js" "$PWD/target/wasm32-wasip1/debug/swc_plugin_coverage.wasm"
