#!/bin/bash
# check.sh ID                 builds the monitor of a property from /repo's working tree and runs it
# check.sh ID replay FILE     runs one recorded case
cd "$(dirname "$0")" || exit 2
id=$1
case $id in
  C0?|C10|C11) crate=lexmon ;;
  C12|C13) crate=jsonmon ;;
  C30) crate=shapemon ;;
  C??) crate=parsemon ;;
  *) echo "usage: $0 ID [replay FILE]"; exit 2 ;;
esac
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS="${RUSTFLAGS:-} --cap-lints allow"
mkdir -p target
bin=target/release/$crate
if [ $id = C33 ]; then
  # every edge of the control flow calls back (parsemon/src/cost.rs)
  export CARGO_TARGET_DIR="$PWD/target/cost" RUSTFLAGS="$RUSTFLAGS --cfg cost -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard"
  # (only in code for the target, so that build scripts and macros are left alone)
  export CARGO_BUILD_TARGET=x86_64-unknown-linux-gnu
  bin=target/cost/$CARGO_BUILD_TARGET/release/$crate
fi
if ! (cd $crate && cargo build --offline --release --locked) >target/build-$crate.log 2>&1; then
  cat target/build-$crate.log
  if [ $id = C30 ] && grep -qE '^ +--> src/shapes.rs|in the derive macro|proc-macro derive panicked' target/build-$crate.log; then
    # the types are plain: if their derived code does not compile, that is the finding
    mkdir -p evidence && cp target/build-$crate.log evidence/C30.replay
    echo "VIOLATION property=C30 replay=$PWD/evidence/C30.replay"
    exit 1
  fi
  echo "inconclusive: the monitor does not build against /repo"
  exit 2
fi
exec ./$bin "$@"
