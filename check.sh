#!/bin/bash
# usage: check.sh PROPERTY          (VERIF_TIER=quick|thorough)
#        check.sh replay FILE       re-runs the execution of a replay file
#        check.sh setup             builds every variant
# Rebuilds the explorer and the crate under test from /repo's working tree, then explores.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL CARGO_TARGET_DIR

# variant -> target directory, binary
build() {
    local dir args bin
    case $1 in
    release) dir=target bin=release args=(--release) ;;
    checked) dir=target-checked bin=checked args=(--profile checked --features internals,front,store) ;;
    stack) dir=target-stack bin=stack args=(--profile stack) ;;
    f32) dir=target-f32 bin=release args=(--release --features f32) ;;
    ub)
        dir=target-ub bin=x86_64-unknown-linux-gnu/release
        args=(--release --features ub,internals,front,store --target x86_64-unknown-linux-gnu)
        ;;
    # for when the ones above do not build: with only that part of the queries of an observer that
    # the property is about
    checked-*) dir=target-$1 bin=checked args=(--profile checked --features "${1#checked-}") ;;
    ub-*) dir=target-$1 bin=x86_64-unknown-linux-gnu/release args=(--release --features ub --target x86_64-unknown-linux-gnu) ;;
    esac
    # -Z flags on the stable compiler: AddressSanitizer and std's unsafe precondition checks
    case $1 in ub*) export RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=address -Zub-checks=yes" ;; esac
    # cargo goes by mtime: forget its verdict, so that a file put back with an old mtime is seen
    rm -rf "$PWD/mc/$dir/$bin/.fingerprint"/{poly2tri-rs,p2t-mc}-*
    local log ok=1
    log=$(cd mc && CARGO_TARGET_DIR=$dir cargo build --offline "${args[@]}" 2>&1) || ok=
    unset RUSTC_BOOTSTRAP RUSTFLAGS
    if [ -z "$ok" ]; then
        echo "$log" | tail -40 >&2
        echo "check.sh: the build of variant $1 failed" >&2
        return 1
    fi
    BIN=mc/$dir/$bin/p2t-mc
}

# the same program, to be interpreted; without it C16 does without these executions
miri() {
    local dir=mc/target-miri tool sysroot bin
    export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu MIRIFLAGS="-Zmiri-disable-isolation"
    if tool=$(rustup which cargo-miri 2>/dev/null) && sysroot=$(cargo miri setup --print-sysroot 2>/dev/null); then
        rm -rf "$PWD/$dir/miri/x86_64-unknown-linux-gnu/release/.fingerprint"/{poly2tri-rs,p2t-mc}-*
        bin=$PWD/$dir/miri/x86_64-unknown-linux-gnu/release/p2t-mc
        if (cd mc && MIRI_SYSROOT=$sysroot cargo miri run --offline --release --target-dir target-miri \
            --features ub,internals,front,store -- slice 0 0 0) >/dev/null 2>&1; then
            export MC_MIRI=$tool:$bin:$sysroot
        else
            echo "check.sh: the program does not build for Miri, C16 goes without" >&2
        fi
    else
        echo "check.sh: there is no Miri, C16 goes without" >&2
    fi
    unset MIRIFLAGS
    export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
}

# the variant of a property, or what can do in its place
build_for() {
    local v
    v=$(variant "$1")
    case $1 in C16) miri ;; esac
    build "$v" && return
    case $1 in
    C10 | C11 | C17) build checked-internals ;;
    C19) build checked-internals,front ;;
    C20) build checked-internals,store ;;
    C16) build ub-alone ;;
    *) return 1 ;;
    esac
}

variant() {
    case $1 in
    C10 | C11 | C17 | C19 | C20) echo checked ;;
    C15) echo f32 ;;
    C16) echo ub ;;
    C18) echo stack ;;
    *) echo release ;;
    esac
}

case ${1:-} in
setup)
    # each check builds what it needs: only a failure of this one is final
    for v in checked stack f32 ub; do build $v; done
    miri
    build release || exit 2
    ;;
replay)
    build_for "$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)" || exit 2
    exec "$BIN" replay "$2"
    ;;
C[0-9][0-9])
    build_for "$1" || exit 2
    exec "$BIN" check "$1"
    ;;
*)
    sed -n 2,5p "$0" >&2
    exit 2
    ;;
esac
