#!/bin/bash
# Builds the harness crates once so that later checks are incremental.
unset RUSTFLAGS
export CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true
(cd /verif/mc && cargo build --release --offline) && (cd /verif/mcenv && cargo build --release --offline) && (cd /verif/mcops && cargo build --release --offline) && (cd /verif/mcids && CARGO_TARGET_DIR=/verif/target/ids cargo build --release --offline)
