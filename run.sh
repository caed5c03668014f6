#!/bin/sh
# run.sh check ID | run.sh replay FILE | run.sh build
# Builds the harness (offline) and runs it; it builds the generated programs against /repo itself.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p work evidence
log=work/harness-build.log
if ! cargo build --offline --manifest-path harness/Cargo.toml --target-dir harness/target >"$log" 2>&1; then
    echo "ERROR: the harness does not build"
    cat "$log"
    exit 2
fi
[ "$1" = build ] && exit 0
exec harness/target/debug/ndv "$@"
