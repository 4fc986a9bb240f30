#!/bin/bash
# dev helper: build and run
c=mc; t=/verif/target; [ "$1" = C03 ] && c=mcops; [ "$1" = C29 ] && c=mcenv; [ "$1" = C16 ] && c=mcids && t=/verif/target/ids
cd /verif/$c && CARGO_TARGET_DIR=$t CARGO_NET_OFFLINE=true cargo build --release --offline 2>&1 | grep -E "^error|^warning: unused" -A9 | head -${L:-60}
[ -n "$1" ] && time $t/release/$c "$@"
