#!/bin/bash
# Runs the harness under the Miri interpreter: miri.sh <vmon arguments>
V=$(cd "$(dirname "$0")/.." && pwd)
export XDG_CACHE_HOME=$V/target/cache LIBCLANG_PATH=/usr/lib/llvm-18/lib CARGO_NET_OFFLINE=true
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks"
cd "$V/harness" && exec cargo +nightly miri run -q --offline --target-dir "$V/target/miri" -- "$@"
