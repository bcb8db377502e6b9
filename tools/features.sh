#!/bin/bash
# features.sh: build the probe with each set of optional features from /repo's working tree.
# Leaves target/feat/bin/<set> and target/feat/bin/sets; a set with which the library itself does
# not compile leaves <set>.failed with the compiler's message.
cd "$(dirname "$0")/.." || exit 70
B=$(pwd)/target/feat/bin
mkdir -p "$B"
F="jpeg2k lerc lzma ndarray object_store reqwest tokio webp"
SETS="none $F defaults all"
if [ "$1" = thorough ]; then
  for a in $F; do for b in $F; do [[ $a < $b ]] && SETS="$SETS $a+$b"; done; done
fi
exec 9>target/.lock-feat
flock 9
: >"$B/sets.new"
for s in $SETS; do
  case $s in
    none) f= ;;
    all) f=${F// /,} ;;
    *) f=${s//+/,} ;;
  esac
  rm -f "$B/$s" "$B/$s.failed"
  log=$B/$s.log
  if (cd probe && cargo build --offline --quiet --no-default-features --features "$f" --target-dir ../target/feat) >"$log" 2>&1; then
    cp target/feat/debug/probe "$B/$s" || exit 70
  elif grep -q 'could not compile `async-tiff`' "$log"; then
    grep -m1 -A1 '^error' "$log" | tr '\n' ' ' >"$B/$s.failed"
  else
    tail -20 "$log" >&2
    echo "BUILD FAILED ($log)" >&2
    exit 70
  fi
  echo "$s" >>"$B/sets.new"
done
mv "$B/sets.new" "$B/sets"
