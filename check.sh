#!/bin/bash
# check.sh Cxx [quick|thorough]: rebuilds from /repo's working tree and runs the monitors of one property.
# exit 0: held on everything observed; 1: VIOLATION; 2: no answer
cd "$(dirname "$0")" || exit 2
. tools/env.sh
id=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
mkdir -p evidence
rm -f "evidence/$id.json" evidence/replay/"$id"-*.txt
variants=(base)
case $id in C01) variants=(base asan) ;; C14) variants=(base rayon) ;; C22) variants=(base scalar sse avx stable) ;; C23) variants=(base wasm) ;; esac
# C14 goes on without ThreadSanitizer where that build is impossible (the evidence then counts no thread_sanitizer_calls)
[ "$id" = C14 ] && { bash tools/build.sh tsan >/dev/null 2>&1 & tsan_pid=$!; }
pids=()
for v in "${variants[@]}"; do bash tools/build.sh "$v" & pids+=($!); done
for p in "${pids[@]}"; do wait "$p" || { wait; cat build/*/build.log | grep -E "^error" | head; exit 2; }; done
tsan=1
[ "$id" = C14 ] && { wait "$tsan_pid"; tsan=$?; }
base=$VERIF/build/base/debug/yuvmon
rc=0
case $id in
  C01)
    asan=$VERIF/build/asan/x86_64-unknown-linux-gnu/debug/yuvmon
    ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:halt_on_error=1:handle_segv=1:detect_stack_use_after_return=0:allocator_may_return_null=1 YUVMON_TAG=asan YUVMON_EVIDENCE=$VERIF/evidence/.C01-asan.json "$asan" run C01; r1=$?
    "$base" run C01; r2=$?
    rc=$r2; [ $r1 != 0 ] && [ $rc != 1 ] && rc=$r1
    [ "$VERIF_TIER" = thorough ] && miri=900 || miri=30
    python3 tools/miri.py evidence/.C01-miri.json $miri "$VERIF_SEED" || rc=1
    python3 - <<'P'
import json
m = json.load(open("evidence/C01.json")); a = json.load(open("evidence/.C01-asan.json"))
m["coverage"]["address_sanitizer_run"] = {k: v for k, v in a["coverage"].items() if k in ("evaluations", "distinct_nontrivial", "cpu_levels_run")}
m["coverage"]["miri_run"] = json.load(open("evidence/.C01-miri.json"))
m["violations"] += m["coverage"]["miri_run"]["undefined_behaviour"]
m["wall_s"] = round(m["wall_s"] + a["wall_s"], 1)
json.dump(m, open("evidence/C01.json", "w"))
P
    rm -f evidence/.C01-asan.json evidence/.C01-miri.json ;;
  C14)
    export YUVMON_RAYON=$VERIF/build/rayon/debug/yuvmon
    [ "$tsan" = 0 ] && export YUVMON_TSAN=$VERIF/build/tsan/x86_64-unknown-linux-gnu/debug/yuvmon
    "$base" run C14; rc=$? ;;
  C22) export YUVMON_FEATURES=$VERIF/build; "$base" run C22; rc=$? ;;
  C23) export YUVMON_WASM_JS=$VERIF/tools/wasm_serve.js YUVMON_WASM=$VERIF/build/wasm/wasm32-unknown-unknown/debug/yuvmon.wasm; "$base" run C23; rc=$? ;;
  *) "$base" run "$id"; rc=$? ;;
esac
exit $rc
