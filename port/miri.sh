#!/bin/bash
# miri.sh setup|build|run: the worker as an s390x (big-endian) program under Miri, offline.
HERE=$(cd "$(dirname "$0")" && pwd)
ROOT=$(dirname "$HERE")
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
unset RUSTFLAGS RUSTUP_TOOLCHAIN RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_RUSTC_WRAPPER
export XDG_CACHE_HOME=$ROOT/target/port/cache CARGO_TARGET_DIR=$ROOT/target/port/miri
export MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check -Zmiri-disable-isolation"
T=s390x-unknown-linux-gnu
cd "$HERE" || exit 3
case $1 in
setup) exec cargo +nightly miri setup --target $T ;;
build) exec cargo +nightly miri run --release --offline --bin t2dport_worker --target $T </dev/null ;;
run) exec cargo +nightly miri run -q --release --offline --bin t2dport_worker --target $T ;;
esac
exit 2
