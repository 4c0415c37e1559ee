#!/bin/bash
# Build the checkers once, so that later runs only rebuild what changed.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. tools/env.sh
set -e
( cd harness && cargo build --offline --quiet )
( cd harness && CARGO_TARGET_DIR="$CARGO_TARGET_DIR/acc" RUSTC_WRAPPER="$VERIF_DIR/tools/rustc-tsan.sh" cargo build --offline --quiet --bin fsmc-sched )
( cd mpi && cargo build --offline --quiet )
true
