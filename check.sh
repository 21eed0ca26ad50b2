#!/bin/bash
# usage: check.sh ID|setup quick|thorough
# Builds the harness against /repo's working tree and runs the checks of one property.
# Exits with 0 (held), 1 (a VIOLATION line was printed) or something else (no answer).
set -u
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=1.77.2-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg conch_verif" RUST_BACKTRACE=0
export HARNESS_ROOT=$here VERIF_TIER=$2
unset CARGO_TARGET_DIR
mkdir -p "$here/evidence" "$here/replay"
rm -f "$here/replay/$1"-*.replay
log=$here/harness/target/build.log
mkdir -p "$here/harness/target"
if ! (cd "$here/harness" && cargo build --release --locked) >"$log" 2>&1; then
    cat "$log" >&2
    echo "the harness does not build" >&2
    exit 3
fi
[ "$1" = setup ] && exit 0
# Runaway allocations are to end as a crash of the checks
ulimit -v 16000000
exec "$here/harness/target/release/harness" run "$1"
