#!/bin/bash
# Usage: run.sh PROP   build against /repo and decide one property
#        run.sh replay FILE
set -u
here=$(cd "$(dirname "$0")" && pwd)
export MC_ROOT="$here"
. "$here/groups.sh"
prop=$1
if [ "$1" = replay ]; then prop=$(basename "$2" | cut -d- -f1); fi
if [ "$prop" = C34 ]; then
  "$here/build_wasm.sh" || exit 2
  if [ "$1" = replay ]; then exec node "$here/harness-wasm/run.mjs" replay "$here/.build/bin/mc.wasm" "$here" "$2"; fi
  exec node "$here/harness-wasm/run.mjs" check "$here/.build/bin/mc.wasm" "$here"
fi
g=$(group_of "$prop") || { echo "unknown property $prop"; exit 2; }
bins=
for p in $(profiles_of "$prop"); do bins="$bins $g-$p"; done
if ! "$here/build.sh" $bins; then
  # C26 quantifies over struct definitions: a shape whose derived code does not compile is a counterexample,
  # provided that the library itself and the rest of the checker compile
  log="$here/.run/build-derive-checked.log"
  if [ "$prop" = C26 ] && [ "$1" != replay ] && grep -q '^ *--> src/props/derive_gen.rs' "$log" && "$here/build.sh" arith-checked; then
    mkdir -p "$here/replays" && cp "$log" "$here/replays/C26-build.log"
    echo "the code derived for some struct shape does not compile"
    echo "VIOLATION property=C26 replay=$here/replays/C26-build.log"
    exit 1
  fi
  exit 2
fi
if [ "$1" = replay ]; then exec "$here/.build/bin/$g-checked" replay "$2"; fi
exec "$here/.build/bin/$g-checked" check "$prop"
