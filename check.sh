#!/bin/bash
# bash check.sh build            builds the harness from /repo's working tree
# bash check.sh <id> [tier]      decides one property (tier: quick or thorough, default $VERIF_TIER)
# bash check.sh replay <file>    runs a reported failure again
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL
VERIF_DIR=$(cd "$(dirname "$0")" && pwd) || exit 2
export VERIF_DIR CARGO_TARGET_DIR="$VERIF_DIR/work/target"
mkdir -p "$VERIF_DIR/work" || exit 2
log="$VERIF_DIR/work/build-$$.log"
build() {
    # never trust time stamps: gvas is always compiled from what is in /repo now
    cargo clean --manifest-path "$VERIF_DIR/harness/Cargo.toml" --release --offline -p gvas >/dev/null 2>&1
    cargo build --manifest-path "$VERIF_DIR/harness/Cargo.toml" --release --offline >"$log" 2>&1
    code=$?
    if [ $code -ne 0 ]; then
        cat "$log" >&2
        echo "the harness does not build against /repo" >&2
    fi
    rm -f "$log"
    return $code
}
plain() {
    # the second build that C34 compares with
    CARGO_TARGET_DIR="$VERIF_DIR/work/plain" cargo clean --manifest-path "$VERIF_DIR/plain/Cargo.toml" --release --offline -p gvas >/dev/null 2>&1
    CARGO_TARGET_DIR="$VERIF_DIR/work/plain" cargo build --manifest-path "$VERIF_DIR/plain/Cargo.toml" --release --offline >"$log" 2>&1
    code=$?
    if [ $code -ne 0 ]; then
        cat "$log" >&2
        echo "gvas does not build without features" >&2
    fi
    rm -f "$log"
    return $code
}
interpreter() {
    # gvas compiled for Miri and a kind of machine, with Miri's own standard library
    unset RUSTC_WRAPPER
    export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu MIRI_SYSROOT="$VERIF_DIR/work/sysroot-$1"
    export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-seed=${2:-0}" CARGO_TARGET_DIR="$VERIF_DIR/work/miri"
    features=
    case "$1" in
        x86_64-*) # judges what it sees
            MIRIFLAGS="$MIRIFLAGS -Zmiri-tree-borrows"
            features=json ;;
        *) # only has to give an answer
            MIRIFLAGS="$MIRIFLAGS -Zmiri-disable-stacked-borrows -Zmiri-disable-validation" ;;
    esac
    set -- --features "$features" --quiet --offline --manifest-path "$VERIF_DIR/plain/Cargo.toml" --target "$1"
    interpret=(cargo miri run "$@")
}
interpretable() (
    interpreter "$1"
    {
        [ -e "$MIRI_SYSROOT/lib" ] || cargo miri setup --target "$1" &&
        cargo clean --offline --manifest-path "$VERIF_DIR/plain/Cargo.toml" --target "$1" -p gvas &&
        "${interpret[@]}" </dev/null
    } >"$log" 2>&1
    code=$?
    if [ $code -ne 0 ]; then
        cat "$log" >&2
        echo "gvas can not be interpreted for $1" >&2
    fi
    rm -f "$log"
    return $code
)
if [ "$1" = interpret ]; then
    interpreter "$2" "$3"
    exec "${interpret[@]}"
fi
build || exit 2
case "$1 $2" in
    build* | C34* | replay*C34*) plain || exit 2 ;;
esac
case "$1 $2" in
    build* | C37* | replay*C37*) interpretable x86_64-unknown-linux-gnu || exit 2 ;;
esac
case "$1 $2" in
    build* | C38* | replay*C38*) interpretable powerpc-unknown-linux-gnu || exit 2 ;;
esac
case "$1" in
    build) exit 0 ;;
    replay) exec "$CARGO_TARGET_DIR/release/gvasprop" replay "$2" ;;
esac
ulimit -v 25165824
exec "$CARGO_TARGET_DIR/release/gvasprop" check "$1" "${2:-${VERIF_TIER:-quick}}"
