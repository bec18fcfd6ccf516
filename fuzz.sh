#!/bin/bash
# fuzz.sh <property> [seconds]
#
# Coverage-guided search (libFuzzer, AddressSanitizer) for one property:
# through the choices of its generator, and for properties of arbitrary texts
# also through the texts themselves. Part of the thorough check. What is found
# is run again by the ordinary build; only what is broken there is reported.
# Exit 0: nothing found. Exit 1 with a VIOLATION line. Exit 2: an error.
set -u
cd "$(dirname "$0")" || exit 2
root=$PWD
id=${1:?property}
secs=${2:-${VERIF_FUZZ_SECS:-900}}
seed=${VERIF_SEED:-1}
. ./env.sh
# C17 compiles programs, C20 runs threads and C24 measures time; not for a fuzzer.
case $id in C17 | C20 | C24) exit 0 ;; esac

run=$root/.run/fuzz-$id.$$
mkdir -p "$run" replays || exit 2
trap 'rm -rf "$run"' EXIT
(cd harness && cargo build --offline -q) >"$run/build.log" 2>&1 || { cat "$run/build.log" >&2; exit 2; }
plain=$CARGO_TARGET_DIR/debug/verif-pbt
CARGO_TARGET_DIR=$CARGO_TARGET_DIR/fuzz cargo +nightly fuzz build --fuzz-dir fuzz -s address property >"$run/build.log" 2>&1 ||
    { cat "$run/build.log" >&2; echo "check error: the fuzz target does not build" >&2; exit 2; }
bin=$CARGO_TARGET_DIR/fuzz/x86_64-unknown-linux-gnu/release/property
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0
export VERIF_PROP=$id

modes=0
case $id in C01 | C02 | C05 | C08) modes="0 1" ;; esac
jobs=$(nproc)
[ "$jobs" -gt 8 ] && jobs=8
n=$(echo $modes | wc -w)
pids=()
for mode in $modes; do
    export VERIF_RAW=$mode
    mkdir -p "$run/corpus$mode" "$run/out$mode" "$run/crash$mode"
    VERIF_SEED=$seed VERIF_SEEDS=$run/corpus$mode "$bin" >/dev/null 2>&1
    dict=()
    [ "$mode" = 1 ] && dict=(-dict=fuzz/dict.txt)
    for j in $(seq $((jobs / n))); do
        VERIF_FUZZ_OUT=$run/out$mode "$bin" "$run/corpus$mode" "${dict[@]}" -seed=$((seed * 1000 + j + 100 * mode)) \
            -max_total_time="$secs" -max_len=8192 -timeout=120 -rss_limit_mb=3000 -malloc_limit_mb=1000000 \
            -reload=30 -print_final_stats=1 -artifact_prefix="$run/crash$mode/" >"$run/log$mode.$j" 2>&1 &
        pids+=($!)
    done
done
wait "${pids[@]}"
execs=$(grep -h number_of_executed_units "$run"/log* | awk '{n += $2} END {print n + 0}')
cov=$(grep -ho 'cov: [0-9]*' "$run"/log* | sort -k2n | tail -1)
kept=$(ls "$run"/corpus* | wc -l)

# What was found: replay files, and inputs that ended the process.
for mode in $modes; do
    for c in "$run/crash$mode"/*; do
        [ -f "$c" ] || continue
        VERIF_RAW=$mode VERIF_DUMP=$run/out$mode/$(basename "$c").json VERIF_FUZZ_OUT=$run "$bin" "$c" >/dev/null 2>&1
    done
    for f in "$run/out$mode"/*.json; do
        [ -f "$f" ] || continue
        "$plain" replay "$id" "$f" >"$run/replay.log" 2>&1
        rc=$?
        if [ "$rc" = 1 ]; then
            to=replays/$(basename "$f")
            cp "$f" "$to"
            grep -v '^VIOLATION' "$run/replay.log" | head -c 3000
            echo "VIOLATION property=$id replay=$to"
            exit 1
        fi
        echo "fuzz: $(basename "$f") is not confirmed by the ordinary build (exit $rc)" >&2
    done
done
if [ "$execs" = 0 ]; then
    tail -5 "$run"/log* >&2
    echo "check error: the fuzzer did not run" >&2
    exit 2
fi
python3 - "$id" "$execs" "${cov#cov: }" "$kept" "$secs" <<'P'
import json, sys
id, execs, cov, kept, secs = sys.argv[1:]
p = f"evidence/{id}.json"
try:
    e = json.load(open(p))
except Exception:
    sys.exit(0)
e["coverage"]["libfuzzer"] = {"executions": int(execs), "edges": int(cov or 0), "corpus": int(kept), "seconds": int(secs)}
json.dump(e, open(p, "w"), indent=2)
P
echo "$id: libFuzzer held on $execs executions ($cov)"
