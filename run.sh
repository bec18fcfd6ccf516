#!/bin/bash
# run.sh <property> [quick|thorough]
#
# Rebuilds the harness against /repo's working tree and runs one check.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: an error.
set -u
cd "$(dirname "$0")" || exit 2
root=$PWD
id=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
. ./env.sh

run=$root/.run/$id.$$
mkdir -p "$run" evidence || exit 2
trap 'rm -rf "$run"' EXIT
export VERIF_RUN_DIR=$run

build() { # build <profile flag...>
    (cd harness && cargo build --offline -q "$@") >"$run/build.log" 2>&1 && return
    cat "$run/build.log" >&2
    echo "check error: the harness does not build against /repo" >&2
    exit 2
}

if [ "$tier" = thorough ]; then limit=20000; else limit=800; fi
build
also=()
if [ "$id" = C01 ]; then
    # Also without overflow and debug checks, and without optimisation.
    build --release
    build --profile plain
    also=(--also "$CARGO_TARGET_DIR/release/verif-pbt" --plain "$CARGO_TARGET_DIR/plain/verif-pbt")
fi
threads=$(nproc)
[ "$threads" -gt 8 ] && threads=8
[ "$id" = C20 ] && threads=1 # its cases have threads of their own
"$CARGO_TARGET_DIR/debug/verif-pbt" run "$id" --tier "$tier" --seed "$seed" --threads "$threads" \
    --evidence "evidence/$id.json" --replays replays --corpus corpus --limit "$limit" "${also[@]}"
rc=$?
if [ "$rc" = 0 ] && [ "$tier" = thorough ] && [ -x fuzz.sh ]; then
    ./fuzz.sh "$id" || rc=$?
fi
exit "$rc"
