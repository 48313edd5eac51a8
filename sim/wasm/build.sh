#!/bin/bash
# Build the simulator for a 32-bit machine (wasm32, with unwinding). The standard library for it is built from the
# sources that come with the nightly toolchain.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
t="$here/target"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET
n="$(rustc --print sysroot)"
flags="-Cpanic=unwind -Ctarget-feature=+exception-handling"
lib="$t/sysroot/lib/rustlib"
mkdir -p "$t"
if ! [ -e "$t/sysroot/complete" ]; then
    (cd "$n/lib/rustlib/src/rust/library/sysroot" &&
        RUSTFLAGS="-Zforce-unstable-if-unmarked $flags" __CARGO_DEFAULT_LIB_METADATA=std CARGO_TARGET_DIR="$t/std" \
            cargo build --offline --locked --release -q --target wasm32-unknown-unknown)
    mkdir -p "$lib/wasm32-unknown-unknown/lib"
    find "$t/std/wasm32-unknown-unknown" \( -name '*.rlib' -o -name '*.rmeta' \) -exec cp {} "$lib/wasm32-unknown-unknown/lib/" \;
    ln -sfn "$n/lib/rustlib/x86_64-unknown-linux-gnu" "$lib/x86_64-unknown-linux-gnu"
    : > "$t/sysroot/complete"
fi
cd "$here/.."
RUSTFLAGS="--sysroot $t/sysroot $flags -Clink-arg=-zstack-size=33554432 -Clink-arg=--export=sim_cmd -Clink-arg=--export=sim_buf" \
    CARGO_TARGET_DIR="$t/build" cargo build --offline --locked -q --target wasm32-unknown-unknown
cp "$t/build/wasm32-unknown-unknown/debug/sim.wasm" "$t/sim.wasm"
