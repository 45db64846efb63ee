#!/bin/bash
# Builds everything the checks need once.
cd "$(dirname "$0")" || exit 2
. ./env.sh
bash ./build.sh
