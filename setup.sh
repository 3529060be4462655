#!/bin/bash
# Builds the framework from the committed files (each check also builds what it needs by itself).
cd "$(dirname "$0")" || exit 2
for v in base rayon asan scalar sse avx stable wasm tsan; do bash tools/build.sh $v & done
rc=0
for _ in 1 2 3 4 5 6 7 8 9; do wait -n || rc=1; done
python3 tools/miri.py build/miri.json 0 1 || rc=1
exit $rc
