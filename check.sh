#!/bin/bash
# check.sh <ID>: rebuild the monitors against /repo's working tree and run property <ID>.
# VERIF_SEED (default 1) seeds every random choice, VERIF_TIER is quick or thorough.
# exit 0: held on everything explored; 1: VIOLATION line printed; anything else: no verdict.
cd "$(dirname "$0")" || exit 70
V=$(pwd)
ID=$1
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
export LIBCLANG_PATH=/usr/lib/llvm-18/lib CARGO_NET_OFFLINE=true
mkdir -p target evidence replay
build() { # build <target-dir> <log> cargo args...
  local log=$2 td=$1; shift 2
  if ! (flock 9; cd harness && "$@" --target-dir "$td") 9>"$V/target/.lock" >"$log" 2>&1; then
    tail -40 "$log" >&2
    echo "BUILD FAILED ($log)" >&2
    exit 70
  fi
}
# instrumented builds: Rust code, its dependencies and the native codecs
san() { # san <address|thread> <dir> <extra rustflags> <extra cargo flags>
  CC=clang CXX=clang++ CFLAGS="-fsanitize=$1 -fno-omit-frame-pointer -g1" CXXFLAGS="-fsanitize=$1 -fno-omit-frame-pointer -g1" \
  RUSTFLAGS="-Zsanitizer=$1 -Cforce-frame-pointers=yes $3" \
    build "$V/target/$2" "$V/target/build-$2.log" cargo +nightly build $4 --release --offline --target x86_64-unknown-linux-gnu
}
build "$V/target" "$V/target/build.log" cargo build --release --offline
case $ID in setup|C21) san address asan "-Zub-checks=yes --cfg vmon_asan" "-Zbuild-std" ;; esac
case $ID in setup|C21) tools/miri.sh selftest clean >"$V/target/build-miri.log" 2>&1 || echo "Miri does not run here (see target/build-miri.log); that part is skipped" >&2 ;; esac
case $ID in setup|C19) san thread tsan "" "-Zbuild-std" ;; esac
case $ID in setup|C30) tools/features.sh "$TIER" || exit 70 ;; esac
export VMON_FEAT=$V/target/feat/bin
[ "$ID" = setup ] && exit 0
exec timeout -k 10 "${VERIF_TIMEOUT:-$([ "$TIER" = thorough ] && echo 7000 || echo 800)}" \
  target/release/vmon run "$ID" --seed "$SEED" --tier "$TIER" --out "$V"
