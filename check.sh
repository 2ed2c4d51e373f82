#!/bin/bash
# check.sh <id>                          run the check of a property (VERIF_SEED, VERIF_TIER)
# check.sh <id> case <section> <index>   replay one case
# Exit code: 0 held, 1 violated, 2 no verdict (does not build, harness error, timeout).
set -u
id="$1"; shift
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export CARGO_TARGET_DIR="$here/target"
export CARGO_NET_OFFLINE=true
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
mkdir -p "$here/target"

# Cargo decides by modification times; make it decide by content.
stamp="$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
if [ "$(cat "$here/target/repo.stamp" 2>/dev/null)" != "$stamp" ]; then
    (cd "$here/harness" && touch src/lib.rs && find "$here/target" -type d -path '*/.fingerprint/rustnomial-*' -prune -exec rm -rf {} +) 2>/dev/null
    echo "$stamp" >"$here/target/repo.stamp"
fi

build() { # toolchain, args...
    local tc="$1"; shift
    local log="$here/target/build-$bin.log"
    if ! (cd "$here/harness" && cargo $tc build --release --offline "$@") >"$log" 2>&1; then
        cat "$log"
        echo "INCONCLUSIVE property=$id: the harness does not build against /repo"
        exit 2
    fi
}

case "$bin" in
c19)
    build +nightly --features optional --bin c19 --target-dir "$here/target/nightly"
    exec "$here/target/nightly/release/c19" "$@"
    ;;
c17)
    if [ "${VH_ASAN:-}" != 1 ] && [ $# -gt 0 ]; then
        build "" --bin c17
        exec "$here/target/release/c17" "$@"
    fi
    # The address sanitizer: a smaller run of the same cases.
    asan="$here/target/asan/x86_64-unknown-linux-gnu/release/c17"
    export ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:allocator_may_return_null=1
    RUSTFLAGS=-Zsanitizer=address build +nightly --target x86_64-unknown-linux-gnu --target-dir "$here/target/asan" --bin c17
    if [ $# -gt 0 ]; then
        exec "$asan" "$@"
    fi
    t0=$(date +%s)
    VH_ASAN=1 VH_SCALE=${VH_ASAN_SCALE:-0.5} "$asan" || exit $?
    t1=$(date +%s)
    cases="$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["coverage"]["evaluations"])' "$here/evidence/C17.json" 2>/dev/null || echo 0)"
    # Miri: undefined behaviour and data races.
    miri="$here/target/miri"; seed="${VERIF_SEED:-1}"; n=5; limit=420
    [ "${VERIF_TIER:-quick}" = thorough ] && { n=150; limit=14400; }
    run_miri() { (cd "$here/harness" && MIRIFLAGS="-Zmiri-seed=$1" timeout $limit cargo +nightly miri run --offline --target-dir "$miri" --bin c17 -- interpret "$2" "$1"); }
    if ! run_miri 1 0 >"$here/target/build-c17.log" 2>&1; then
        cat "$here/target/build-c17.log"
        echo "INCONCLUSIVE property=C17: Miri does not run"
        exit 2
    fi
    pids=()
    for i in 0 1 2 3 4 5 6 7; do
        run_miri $((seed * 8 + i)) $n >"$here/target/miri-$i.log" 2>&1 &
        pids+=($!)
    done
    inconclusive=0; saw=0; cut=0
    for i in 0 1 2 3 4 5 6 7; do
        wait "${pids[$i]}"; rc=$?
        # On a slow machine a process may be cut off: what it printed until then counts.
        k="$(sed -n 's/^INTERPRETED //p' "$here/target/miri-$i.log" | tail -1)"
        [ $rc = 124 ] && cut=$((cut + 1))
        if [ $rc = 0 ] || { [ $rc = 124 ] && [ -n "$k" ] && ! grep -q '^PROBLEM:' "$here/target/miri-$i.log"; }; then
            saw=$((saw + ${k:-0}))
        elif grep -qE '^PROBLEM:|Undefined Behavior|Data race|memory leaked|deadlock|abnormal termination|invoked abort' "$here/target/miri-$i.log"; then
            mkdir -p "$here/replays"
            r="$here/replays/C17-miri-$((seed * 8 + i)).txt"
            { echo "# replay: cd $here/harness && MIRIFLAGS=-Zmiri-seed=$((seed * 8 + i)) cargo +nightly miri run --offline --target-dir $miri --bin c17 -- interpret $n $((seed * 8 + i))"; cat "$here/target/miri-$i.log"; } >"$r"
            grep -m3 -E '^PROBLEM:|^error' "$here/target/miri-$i.log"
            echo "VIOLATION property=C17 replay=$r"
            violated=1
        else
            tail -5 "$here/target/miri-$i.log"
            inconclusive=1
        fi
    done
    t2=$(date +%s)
    [ "${violated:-0}" = 1 ] && exit 1
    if [ $inconclusive = 1 ]; then
        echo "INCONCLUSIVE property=C17: Miri did not finish"
        exit 2
    fi
    export VH_EXTRA_COVERAGE="\"address_sanitizer\": {\"cases\": $cases, \"wall_s\": $((t1 - t0)), \"reports\": 0}, \"miri\": {\"processes\": 8, \"cases\": $((8 * 4 * n)), \"events_observed\": $saw, \"processes_cut_off\": $cut, \"wall_s\": $((t2 - t1)), \"reports\": 0}"
    build "" --bin c17
    exec "$here/target/release/c17"
    ;;
*)
    build "" --bin "$bin"
    exec "$here/target/release/$bin" "$@"
    ;;
esac
