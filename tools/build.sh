#!/bin/bash
# tools/build.sh VARIANT: builds the harness (and the library from /repo's working tree) into build/VARIANT.
#   base   all library features, debug assertions and overflow checks on
#   rayon  base + the library's `rayon` feature
#   wasm   base for wasm32-unknown-unknown with simd128 (answers requests from tools/wasm_serve.js)
#   scalar, sse, avx, stable   base with fewer instruction-set features of the library
#   asan   base under AddressSanitizer
#   tsan   the library's `rayon` feature under ThreadSanitizer, standard library included (a newer nightly has its vendored sources; no AVX-512)
. "$(dirname "$0")/env.sh"
v=$1
T=$VERIF/build/$v
mkdir -p "$T"
exec 9>"$T/.lock"
flock 9
export CARGO_TARGET_DIR=$T
args=()
case $v in
  base) ;;
  rayon) args=(--features rayon) ;;
  asan) export RUSTFLAGS="-Zsanitizer=address"; args=(--target x86_64-unknown-linux-gnu) ;;
  tsan) export RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=thread"; args=(-Zbuild-std --target x86_64-unknown-linux-gnu --no-default-features --features common,rayon,yuv/avx,yuv/sse) ;;
  scalar) args=(--no-default-features --features common) ;;
  sse) args=(--no-default-features --features common,yuv/sse) ;;
  avx) args=(--no-default-features --features common,yuv/avx) ;;
  stable) args=(--no-default-features --features common,yuv/avx,yuv/sse) ;;
  wasm) export RUSTFLAGS="-Ctarget-feature=+simd128"; args=(--target wasm32-unknown-unknown --no-default-features --features common) ;;
  *) echo "unknown variant $v"; exit 2 ;;
esac
# cargo decides by modification times; a copied tree may carry old ones, so the contents decide here
h=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ -f "$T/.srchash" ] && [ "$(cat "$T/.srchash")" != "$h" ]; then
  (cd "$VERIF/harness" && cargo clean --offline -p yuv "${args[@]:0:0}" >/dev/null 2>&1)
  [ "$v" = wasm ] && (cd "$VERIF/harness" && cargo clean --offline -p yuv --target wasm32-unknown-unknown >/dev/null 2>&1)
  [ "$v" = asan -o "$v" = tsan ] && (cd "$VERIF/harness" && cargo clean --offline -p yuv --target x86_64-unknown-linux-gnu >/dev/null 2>&1)
fi
rm -f "$T/.srchash"
if ! (cd "$VERIF/harness" && cargo build --offline "${args[@]}" >"$T/build.log" 2>&1); then
  echo "INCONCLUSIVE: the $v build of the harness failed:"; grep -E "^error" -A8 "$T/build.log" | head -40; tail -3 "$T/build.log"
  exit 2
fi
echo "$h" >"$T/.srchash"
