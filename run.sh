#!/bin/bash
# run.sh <property> <quick|thorough>: rebuilds from /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p work evidence
VERIF_BUILD="$1" bash ./build.sh > work/build.log 2>&1 || { tail -n 60 work/build.log; echo "build failed"; exit 2; }
exec node --stack-size=3000 js/check.js "$1" "$2"
