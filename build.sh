#!/bin/bash
# Builds the model checker against /repo's working tree.
# Usage: build.sh [all | GROUP-PROFILE...]     (profiles: checked, wrapping)
set -u
cd "$(dirname "$0")" || exit 2
. ./groups.sh
export CARGO_TARGET_DIR="$PWD/.build" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
mkdir -p .build/bin .build/stamps .run
exec 9>.run/lock
flock 9
want=$*
if [ "$want" = all ] || [ -z "$want" ]; then
  want=$(for p in $ALL_PROPS; do for q in $(profiles_of $p); do echo "$(group_of $p)-$q"; done; done | sort -u)
fi
# cargo trusts modification times: key the builds by the contents of the sources instead
repo=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name Cargo.toml -o -name Cargo.lock \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
mine=$(find harness harness-sched rayon-stub -path '*/target' -prune -o -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
for w in $want; do
  g=${w%-*} prof=${w##*-}
  out=.build/bin/$w
  if [ -x "$out" ] && [ "$(cat ".build/stamps/$w" 2>/dev/null)" = "$repo-$mine" ]; then continue; fi
  dir=harness tgt=.build
  # sched-checked: rayon under the controlled scheduler; sched-real: rayon itself
  if [ "$w" = sched-checked ]; then dir=harness-sched tgt=.build/sched; fi
  if [ "$prof" = real ]; then prof=checked; fi
  export CARGO_TARGET_DIR="$PWD/$tgt"
  if [ "$(cat ".build/stamps/sdk-$dir-$prof" 2>/dev/null)" != "$repo" ]; then
    # rebuild /repo's crates whatever their modification times say
    cargo clean --offline --quiet --manifest-path $dir/Cargo.toml --profile "$prof" -p sia_sdk -p sia_sdk_derive >/dev/null 2>&1
  fi
  cargo clean --offline --quiet --manifest-path $dir/Cargo.toml --profile "$prof" -p sia_mc >/dev/null 2>&1
  if ! cargo build --offline --quiet --manifest-path $dir/Cargo.toml --profile "$prof" --features "$g" >.run/build-"$w".log 2>&1; then
    echo "BUILD FAILED ($w)"; grep -E -A12 '^error' .run/build-"$w".log | head -60
    exit 2
  fi
  echo "$repo" >".build/stamps/sdk-$dir-$prof"
  cp -f "$tgt/$prof/mc" "$out.new" && mv -f "$out.new" "$out" && echo "$repo-$mine" >".build/stamps/$w"
done
