#!/bin/bash
# usage: check.sh build | check.sh ID | check.sh replay FILE      (VERIF_TIER=quick|thorough)
# Builds the explorer against /repo's working tree, offline, into a git-ignored folder of /verif, and runs one check.
here=$(cd "$(dirname "$0")" && pwd)
[ -d /root/.cargo/bin ] && export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$here/mc/target"
export MC_VERIF="$here"
export MC_TIER="${VERIF_TIER:-quick}"
ulimit -n 65536 2>/dev/null || ulimit -n "$(ulimit -Hn)" 2>/dev/null

# as in debug and as in release builds of the library
both() {
    cargo build --offline --locked "$@" &
    cargo build --offline --locked --profile nodebug "$@"
    nodebug=$?
    wait $! && [ $nodebug = 0 ]
}

build() {
    cd "$here/mc" || exit 3
    log=$(mktemp)
    if ! both >"$log" 2>&1; then
        # the in-process driver needs Router::search_route as a public entry; without it everything runs over the wire
        if ! both --no-default-features >>"$log" 2>&1; then
            tail -60 "$log"
            rm -f "$log"
            echo "ENGINE ERROR: the explorer does not build against /repo"
            exit 3
        fi
        echo "note: the in-process driver does not build against this tree; everything runs over the wire"
    fi
    rm -f "$log"
    cd "$here" || exit 3
}

# the library with a call back at every basic block, for the schedules with a pre-emption anywhere (C19)
preempt() {
    export CARGO_TARGET_DIR="$here/mc/target/preempt"
    if ! (cd "$here/mc/preempt" && RUSTC_WRAPPER="$here/mc/preempt/rustc.sh" cargo build --offline --locked >/dev/null 2>&1); then
        echo "note: the explorer of pre-emptions does not build against this tree; C19 goes without it"
        rm -f "$here/mc/target/preempt/debug/preempt"
    fi
    export CARGO_TARGET_DIR="$here/mc/target"
}

case "$1" in
    build) build; preempt ;;
    replay) build; preempt; exec "$here/mc/target/debug/mc" replay "$2" ;;
    "") echo "usage: check.sh build | ID | replay FILE"; exit 2 ;;
    C19) build; preempt; exec "$here/mc/target/debug/mc" check C19 ;;
    *) build; exec "$here/mc/target/debug/mc" check "$1" ;;
esac
