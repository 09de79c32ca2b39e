#!/bin/bash
# Every check builds what it needs; this only shows that it can be built.
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS="${RUSTFLAGS:-} --cap-lints allow"
for crate in lexmon jsonmon shapemon parsemon; do
  [ -d $crate ] && (cd $crate && cargo build --offline --release --locked) || [ ! -d $crate ] || exit 1
done
