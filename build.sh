#!/bin/bash
# Builds what the check named in VERIF_BUILD needs from /repo's working tree (all of it without a name).
cd "$(dirname "$0")" || exit 2
. ./env.sh
HERE=$PWD
case "${VERIF_BUILD:-all}" in P17|P18|all)
  (cd plugin-host && cargo build --locked --offline) || exit 2
  # the compiled plugin itself, as a release build would be minus optimisation time
  (cd /repo && CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=false CARGO_TARGET_DIR="$HERE/plugin-host/target" \
    cargo build -p swc-plugin-coverage --target wasm32-wasip1 --locked --offline) || exit 2
esac
case "${VERIF_BUILD:-all}" in P17|P18) ;; *)
  (cd harness && cargo build --locked --offline) || exit 2
esac
