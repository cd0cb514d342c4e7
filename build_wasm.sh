#!/bin/bash
# Builds the model checker for wasm32 against /repo's working tree: first the standard library, from the
# sources that come with the toolchain, then /repo's crates and the checker.
set -u
cd "$(dirname "$0")" || exit 2
unset RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_BOOTSTRAP=1
W="$PWD/.build/wasm" target=wasm32-unknown-unknown
mkdir -p "$W" .build/bin .build/stamps .run
exec 9>.run/lock-wasm
flock 9
T=$(rustc --print sysroot) || exit 2
SR="$W/sysroot" L="$W/sysroot/lib/rustlib"
tool=$(rustc -vV | sha256sum | cut -c1-32)
if [ "$(cat "$W/sysroot.stamp" 2>/dev/null)" != "$tool" ]; then
  lib="$T/lib/rustlib/src/rust/library"
  RUSTFLAGS="-Cpanic=unwind -Zforce-unstable-if-unmarked" cargo build --release --offline --locked --quiet \
    --manifest-path "$lib/sysroot/Cargo.toml" --features panic-unwind --target $target --target-dir "$W/std" \
    --config 'source.crates-io.replace-with="vendored"' --config "source.vendored.directory=\"$lib/vendor\"" \
    >.run/build-std.log 2>&1 || { echo "BUILD FAILED (std for wasm32)"; tail -20 .run/build-std.log; exit 2; }
  rm -rf "$SR"
  mkdir -p "$L/$target/lib"
  cp "$W/std/$target/release/deps/"*.rlib "$L/$target/lib/" || exit 2
  ln -s "$T/lib/rustlib/x86_64-unknown-linux-gnu" "$L/x86_64-unknown-linux-gnu"
  rm -rf "$W/std"
  echo "$tool" >"$W/sysroot.stamp"
fi
# as in build.sh: keyed by contents
repo=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name Cargo.toml -o -name Cargo.lock \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
mine=$(find harness harness-wasm -path '*/target' -prune -o -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
out=.build/bin/mc.wasm
[ -f $out ] && [ "$(cat .build/stamps/wasm 2>/dev/null)" = "$tool-$repo-$mine" ] && exit 0
export CARGO_TARGET_DIR="$W/target"
export CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_RUSTFLAGS="--sysroot $SR -Cpanic=unwind -Awarnings -Clink-arg=-zstack-size=2097152"
cargo clean --offline --quiet --manifest-path harness-wasm/Cargo.toml --release --target $target -p sia_sdk -p sia_mc_wasm >/dev/null 2>&1
cargo clean --offline --quiet --manifest-path harness-wasm/Cargo.toml --release -p sia_sdk_derive >/dev/null 2>&1
if ! cargo build --offline --quiet --manifest-path harness-wasm/Cargo.toml --release --target $target >.run/build-wasm.log 2>&1; then
  echo "BUILD FAILED (wasm32)"; grep -E -A12 '^error' .run/build-wasm.log | head -60
  exit 2
fi
cp -f "$W/target/$target/release/sia_mc_wasm.wasm" $out.new && mv -f $out.new $out && echo "$tool-$repo-$mine" >.build/stamps/wasm
