#!/bin/bash
# usage: run.sh ID [quick|thorough]      checks one property against /repo's working tree
#        run.sh build                    only builds
#        run.sh replay FILE              runs one stored case again
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$here/target VERIF_DIR=$here
cd "$here/harness" || exit 2
# Cargo compares mtimes only: this makes it look again even at files put back with an old mtime.
touch -c /repo/src/lib.rs
cov="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Ccodegen-units=4"
log=$here/target/build.log
mkdir -p "$here/target"
if ! RUSTFLAGS="$cov" cargo build --offline --release >"$log" 2>&1; then
    # Without coverage feedback: the guided phase then switches itself off.
    if ! cargo build --offline --release >"$log" 2>&1; then
        tail -40 "$log"
        echo "ERROR: the harness does not build against /repo"
        exit 2
    fi
fi
bin=$here/target/release/svgcheck
case "$1" in
    build) exit 0 ;;
    replay) exec "$bin" replay "$2" ;;
    *) exec "$bin" run "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
