#!/bin/bash
# run.sh ID [--section NAME ...]: rebuilds the harness binary of property ID from /repo's
# working tree and runs it. Exit 0: held; exit 1 with a VIOLATION line: broken; else: error.
set -o pipefail
cd "$(dirname "$0")" || exit 3
ID=$1; shift
export HOME=/root PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset CARGO_BUILD_TARGET RUSTFLAGS CARGO_TARGET_DIR
VERIF_REPO=${VERIF_REPO:-/repo}
export VERIF_DIR=$PWD
mkdir -p .build evidence replays || exit 3
python3 mirror.py .build/ws "$VERIF_REPO" || exit 3
bin=$(echo "$ID" | tr A-Z a-z)
key=$(rustc -C target-cpu=native --print cfg | md5sum | cut -c1-8)
export CARGO_TARGET_DIR=$PWD/.build/target-$key
target=$CARGO_TARGET_DIR
crate=harness
[ -f "sched/src/bin/$bin.rs" ] && crate=sched
if [ $crate = sched ] || [ -n "$VERIF_BUILD_ALL" ]; then
  python3 mirror.py .build/ws-sched "$VERIF_REPO" shims || exit 3
fi
flags="-C target-cpu=native"
# the controlled build also reports its loads and stores, of at most 16 bytes each
sched_env() {
  export CARGO_TARGET_DIR=$target-sched RUSTC_WRAPPER=$PWD/tools/rustc-watched
  flags="-C target-cpu=x86-64-v2 -C target-feature=+aes,+pclmulqdq"
}
[ $crate = sched ] && sched_env
features=
[ "$bin" = c36 ] && features="--features count"
log=.build/build-$bin.log
if [ -n "$VERIF_BUILD_ALL" ]; then
  for c in harness sched; do
    [ $c = sched ] && sched_env
    (cd $c && RUSTFLAGS="$flags" cargo build --release --offline --locked --bins) || exit 3
  done
  (cd sched && RUSTFLAGS="$flags" cargo build --release --offline --locked --bin c36 --features count) || exit 3
  exit 0
fi
if ! (cd $crate && RUSTFLAGS="$flags" cargo build --release --offline --locked --bin "$bin" $features) >"$log" 2>&1; then
  tail -60 "$log"; echo "ERROR: the harness does not build against the current tree"; exit 3
fi
ulimit -v 26000000
exec "$CARGO_TARGET_DIR/release/$bin" "$@"
