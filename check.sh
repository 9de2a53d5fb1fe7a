#!/bin/bash
# usage: check.sh ID            run the check of one property (VERIF_TIER, VERIF_SEED)
#        check.sh --build       only build
#        check.sh --replay FILE rerun one saved case
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export VH_ROOT="$here"
T="$here/target"
export CARGO_TARGET_DIR="$T"
build() {
    local prof="$1"
    # cargo compares mtimes: forget what it knows about the crate under test
    rm -rf "$T/$prof/.fingerprint/aws-smt-strings-"*
    cargo build --quiet --offline --manifest-path "$here/harness/Cargo.toml" --profile "$prof" 2> "$T/build-$prof.log"
}
mkdir -p "$T"
(
    flock 9
    build checked && build release
) 9> "$T/lock"
if [ $? -ne 0 ]; then
    cat "$T"/build-*.log >&2
    echo "check.sh: build failed" >&2
    exit 3
fi
case "$1" in
    --build) exit 0 ;;
    --replay) exec "$T/checked/vh" replay "$2" ;;
    *) exec "$T/checked/vh" check "$1" ;;
esac
