#!/bin/bash
# check.sh ID: rebuild the harness against /repo's working tree and run one check,
# in a build with assertions and overflow checks, then (fewer and other cases)
# in one without, as users build it.
# The tier and the seed come from VERIF_TIER and VERIF_SEED.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$here/harness/target"
log="$here/harness/target.build.log"
build() {
    cd "$here/$1" || exit 2
    if ! cargo build --profile "$2" --offline --locked >"$log" 2>&1; then
        cat "$log" >&2
        rm -f "$log"
        echo "ERROR: the $1 does not build against /repo" >&2
        exit 2
    fi
    rm -f "$log"
}
# C23 is about the example program in /repo/examples.
[ "${1:-}" = C23 ] && build formatter release
build harness release
# A runaway allocation must fail inside the check, not eat the machine.
(ulimit -v 20000000; exec ./target/release/ppp-check "$@" --out "$here") || exit
# The formatter is a plain build already.
[ "${1:-}" = C23 ] && exit
build harness plain
ulimit -v 20000000
exec ./target/plain/ppp-check "$@" --scale 0.25 --out "$here"
