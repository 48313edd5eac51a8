#!/bin/bash
# Build the simulator against /repo's current working tree and run it: run.sh build | check C01 | replay FILE | show C01 SEED RUN
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
export CARGO_NET_OFFLINE=true
if rustup toolchain list 2>/dev/null | grep -q '^stable-x86_64'; then export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu; fi
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
if [ "${1:-}" = replay ] && [ -e "${2:-}" ]; then set -- replay "$(realpath "$2")"; fi
cd "$here/sim" || exit 3
if ! cargo build --offline --locked -q 2>"$here/sim/build.log"; then
    cat "$here/sim/build.log" >&2
    echo "the simulator does not build against /repo" >&2
    exit 3
fi
# C17 is decided by a 32-bit build of the same simulator.
if [ "${1:-}" = build ] || [ "${2:-}" = C17 ] || { [ "${1:-}" = replay ] && grep -qs '^property: C17' "${2:-}"; }; then
    if ! "$here/sim/wasm/build.sh" 2>"$here/sim/build.log"; then
        cat "$here/sim/build.log" >&2
        echo "the 32-bit simulator does not build against /repo" >&2
        exit 3
    fi
fi
[ "${1:-}" = build ] && exit 0
exec "$here/sim/target/debug/sim" "$@"
