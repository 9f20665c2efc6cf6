#!/bin/bash
# Builds the engine and both harness builds (every check does this again by itself).
cd "$(dirname "$0")" || exit 2
. ./lib.sh
build_engine && build_harness tco && build_harness legacy
