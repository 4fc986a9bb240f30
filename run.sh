#!/bin/bash
# Usage: run.sh <property> [thorough]. Builds the harness against /repo's working tree and decides the property.
cd /verif || exit 2
[ "$2" = thorough ] && export VERIF_TIER=thorough
unset RUSTFLAGS
export CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
crate=mc; [ "$1" = C03 ] && crate=mcops; [ "$1" = C29 ] && crate=mcenv
# C16 builds the library with the verification hook (see mcids/.cargo/config.toml).
[ "$1" = C16 ] && crate=mcids && export CARGO_TARGET_DIR=/verif/target/ids
log=$(mktemp /tmp/mcbuild.XXXXXX)
if ! (cd $crate && cargo build --release --offline) >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"; echo "build failed"; exit 2
fi
rm -f "$log"
$CARGO_TARGET_DIR/release/$crate "$1"
rc=$?
if [ $rc -ge 128 ]; then
  # The code under test brought the process down (segmentation fault, abort): that is a violation too.
  mkdir -p evidence/replay
  echo "process ended with status $rc while exploring $1" > "evidence/replay/$1.txt"
  echo "VIOLATION property=$1 replay=/verif/evidence/replay/$1.txt"
  exit 1
fi
exit $rc
