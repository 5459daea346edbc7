#!/bin/bash
# usage: check.sh ID      runs the check of one property against /repo's working tree
#        check.sh replay FILE
# VERIF_TIER=quick|thorough, VERIF_SEED=N
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_ROOT="$PWD"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
build() { # always rebuild norm itself: time stamps are not relied upon
  (cd harness && rm -rf target/release/.fingerprint/norm-* && cargo build --release --offline --locked 2>build.log) || {
    tail -40 harness/build.log
    echo "cannot build the harness against /repo" >&2
    exit 2
  }
}
FUZZ=fuzz/target/x86_64-unknown-linux-gnu/release
fuzz() { # the same checks, instrumented for libFuzzer; runs beside other builds
  (cd fuzz && rm -rf target/x86_64-unknown-linux-gnu/release/.fingerprint/norm-[0-9a-f]* &&
    RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares -Cllvm-args=-simplifycfg-branch-fold-threshold=0" \
      cargo build --release --offline --locked --target x86_64-unknown-linux-gnu >build.log 2>&1) || { tail -40 fuzz/build.log; echo "cannot build for libFuzzer" >&2; return 2; }
}
workers() { # one worker per feature set and profile, for C20
  rm -rf builds/bin; mkdir -p builds/bin builds/target
  local pids=() names=() i
  for f in v1 v2 v1,v2 v1,v2,score tests; do
    for prof in dev release; do
      n="${f//,/+}-$prof"
      ( cd builds && rm -rf target/"$n"/*/.fingerprint/norm-[0-9a-f]* &&
        cargo build --profile "$prof" --features "$f" --offline --locked -j 2 --target-dir target/"$n" >target/"$n".log 2>&1 &&
        cp target/"$n"/*/norm-builds bin/"$n" ) &
      pids+=($!); names+=("$n")
    done
  done
  local failed=()
  for i in "${!pids[@]}"; do wait "${pids[$i]}" || failed+=("${names[$i]}"); done
  if [ ${#failed[@]} -gt 0 ]; then
    # The harness builds with both metrics, so norm itself is sound: a feature
    # set or profile that does not compile is what the property excludes.
    mkdir -p replays
    { echo "builds that fail: ${failed[*]}"; tail -n 40 "${failed[@]/#/builds/target/}" ; for n in "${failed[@]}"; do tail -n 60 "builds/target/$n.log"; done; } >replays/C20-build.txt 2>/dev/null
    mkdir -p evidence
    python3 - "${#names[@]}" "${failed[@]}" <<'P'
import json, os, sys
json.dump(dict(property="C20", tier=os.environ.get("VERIF_TIER", "quick"), seed=int(os.environ.get("VERIF_SEED", "1")), level="exploration",
  coverage=dict(evaluations=int(sys.argv[1]), distinct_nontrivial=int(sys.argv[1]), rule="builds attempted", samples=sys.argv[2:]), wall_s=0, violations=1), open("evidence/C20.json", "w"), indent=1)
P
    cat replays/C20-build.txt
    echo "VIOLATION property=C20 replay=$PWD/replays/C20-build.txt"
    exit 1
  fi
}
debug_worker() { # the debug build of C20's worker with both metrics, for C01
  local n=v1+v2-dev
  mkdir -p builds/c01 builds/target
  (cd builds && rm -rf target/$n/*/.fingerprint/norm-[0-9a-f]* &&
    cargo build --features v1,v2 --offline --locked --target-dir target/$n >target/$n.log 2>&1 &&
    cp target/$n/debug/norm-builds c01/norm-builds) || { tail -40 builds/target/$n.log; echo "cannot build the debug worker" >&2; return 2; }
  export VH_DEBUG_WORKER="$PWD/builds/c01/norm-builds"
}
cost() { # worker run under callgrind (C21); its norm rlib is what C19's client programs use
  (cd cost && rm -rf target/release/.fingerprint/norm-[0-9a-f]* target/release/deps/libnorm-* &&
    cargo build --release --offline --locked >build.log 2>&1) || { tail -40 cost/build.log; echo "cannot build the cost worker" >&2; exit 2; }
}
ASAN=target/asan/x86_64-unknown-linux-gnu/release
asan() {
  (cd harness && rm -rf $ASAN/.fingerprint/norm-* &&
    RUSTFLAGS=-Zsanitizer=address cargo +nightly build --release --offline --locked \
      --target x86_64-unknown-linux-gnu --target-dir target/asan >asan.log 2>&1) || { tail -40 harness/asan.log; echo "cannot build with AddressSanitizer" >&2; exit 2; }
}
miri_env() {
  export MIRIFLAGS="-Zmiri-tree-borrows -Zmiri-disable-isolation"
  export VH_MIRI="cargo +nightly miri run -q --offline --locked --manifest-path $PWD/harness/Cargo.toml --bin vh --target-dir $PWD/harness/target/miri -- miri"
  export ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1
}
miri() { # builds what Miri interprets, and interprets nothing
  miri_env
  rm -rf harness/target/miri/miri/x86_64-unknown-linux-gnu/debug/.fingerprint/norm-*
  echo '["calls", []]' >"$TMPDIR/empty.json"
  $VH_MIRI "$TMPDIR/empty.json" >harness/miri.log 2>&1 || { tail -40 harness/miri.log; echo "cannot run Miri" >&2; exit 2; }
}
TMPDIR="$(mktemp -d)" || exit 2
export TMPDIR VH_COST="$PWD/cost/target/release/norm-cost" VH_RLIBS="$PWD/cost/target/release/deps"
trap 'rm -rf "$TMPDIR"' EXIT
limited() { # runaway memory use of the code under test ends this check, not the sandbox
  ( ulimit -v 20000000; "$@" )
}
case "${1:-}" in
  build) build; fuzz || exit 2; cost; asan; miri; workers ;;
  replay)
    f="$(readlink -f "$2")" || exit 2
    if grep -q '"property": *"C19"' "$f"; then
      cost; asan; miri
      harness/$ASAN/vh replay "$f"
    elif grep -q '"property": *"C22"' "$f"; then
      build; cost; miri
      harness/target/release/vh replay "$f"
    else
      build; cost; workers; debug_worker || exit 2
      limited harness/target/release/vh replay "$f"
    fi ;;
  C19)
    cost; asan; miri
    harness/$ASAN/vh check C19 ;;
  C0[1-9]|C1[0-8]|C2[456])
    fuzz & f=$!
    build
    if [ "$1" = C01 ]; then debug_worker || exit 2; fi
    wait $f || exit 2
    export VH_FUZZ="$PWD/$FUZZ/fz"
    limited harness/target/release/vh check "$1" ;;
  C[0-9][0-9])
    build
    case "$1" in
      C20) workers ;;
      C21) cost ;;
      C22) cost; miri ;;
    esac
    limited harness/target/release/vh check "$1" ;;
  *) echo "usage: $0 build | ID | replay FILE" >&2; exit 2 ;;
esac
