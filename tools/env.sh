# Sourced by the scripts: toolchain and flags, all offline.
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$HOME/.cargo/bin:/usr/local/cargo/bin
export RUSTUP_TOOLCHAIN=nightly-2025-04-15-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export YUVMON_ROOT=$VERIF
