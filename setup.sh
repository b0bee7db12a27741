#!/bin/sh
# Compile every harness crate once, so that later checks only rebuild what changed.
cd "$(dirname "$0")" || exit 1
exec python3 ./check --setup
