#!/bin/bash
# check.sh build            build the simulator from /repo's working tree
# check.sh PROP [TIER]      decide one property (quick or thorough)
# check.sh replay FILE [-v] re-run a recorded violation
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS

build() {
    # Cargo goes by modification times, which a copied tree may not keep: go by content.
    local stamp=sim/target/repo.hash now
    now=$(cd /repo && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)
    mkdir -p sim/target
    (
        flock 9
        if [ "$(cat $stamp 2>/dev/null)" != "$now" ]; then
            (cd sim && cargo clean --offline --release -p spreadsheet-ods >/dev/null 2>&1)
        fi
        if ! (cd sim && cargo build --offline --release) >sim/target/build.log 2>&1; then
            tail -40 sim/target/build.log >&2
            exit 1
        fi
        echo "$now" >$stamp
    ) 9>sim/target/.buildlock
}

case "${1:-}" in
build)
    build || exit 2
    ;;
replay)
    build || exit 2
    shift
    exec sim/target/release/odssim replay "$@"
    ;;
C[0-9]*)
    build || exit 2
    if [ -n "${2:-}" ]; then
        exec sim/target/release/odssim check "$1" --tier "$2"
    fi
    exec sim/target/release/odssim check "$1"
    ;;
*)
    echo "usage: check.sh build | PROP [quick|thorough] | replay FILE [-v]" >&2
    exit 2
    ;;
esac
