#!/bin/bash
# check.sh <ID>: build the checker of property ID from /repo's current tree and run it.
# Exit 0: held; 1: VIOLATION line printed; anything else: no verdict.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. tools/env.sh
ID="$1"
case "$ID" in
  C12|C13|C14|C15|C16|C20) CRATE=mpi; BIN=fsmc-mpi ;;
  C09|C10) CRATE=harness; BIN=fsmc-sched ;;
  # in two parts: the distributed one first
  C21) CRATE=harness; BIN=fsmc; MPI_PART=1 ;;
  *) CRATE=harness; BIN=fsmc ;;
esac
mkdir -p "$CARGO_TARGET_DIR"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
# $1: log; the rest: cargo arguments
build() { local log="$1"; shift; ( cd "$CRATE" && timeout 700 cargo build --offline --quiet --bin "$BIN" "$@" ) >"$log" 2>&1; }
build_mpi() { ( cd mpi && timeout 700 cargo build --offline --quiet --bin fsmc-mpi ) >"$1" 2>&1; }
# the same program with its memory accesses instrumented
build_acc() { CARGO_TARGET_DIR="$CARGO_TARGET_DIR/acc" RUSTC_WRAPPER="$VERIF_DIR/tools/rustc-tsan.sh" build "$@"; }
both() {
  local pid="" rc=0
  if [ "$BIN" = fsmc-sched ]; then
    build_acc "$T/acc.log" "$@" &
    pid=$!
  fi
  if [ -n "${MPI_PART:-}" ]; then
    build_mpi "$T/acc.log" &
    pid=$!
  fi
  build "$T/log" "$@" || rc=1
  if [ -n "$pid" ]; then
    wait "$pid" || { rc=1; cat "$T/acc.log" >>"$T/log"; }
  fi
  return $rc
}
if ! both; then
  # The allocating to_ortho of spaces once had an unsatisfiable bound. If it cannot be called any
  # more, that is a violation of C08 and the remaining operations are checked without it.
  if grep -q 'to_ortho' "$T/log" && [ "$CRATE" = harness ] && both --features no_space_to_ortho; then
    echo "note: built without the spaces' allocating to_ortho" >&2
  else
    both
    cat "$T/log" >&2
    echo "ERROR: the checker does not build against /repo" >&2
    exit 2
  fi
fi
export VERIF_ROOT="$VERIF_DIR"
FIRST=""
[ "$BIN" = fsmc-sched ] && FIRST="$CARGO_TARGET_DIR/acc/debug/$BIN"
[ -n "${MPI_PART:-}" ] && FIRST="$CARGO_TARGET_DIR/debug/fsmc-mpi"
if [ -n "$FIRST" ]; then
  # what the first one covered is added to the evidence of the second
  FSMC_PART_OUT="$T/part" "$FIRST" check "$ID" >"$T/out"
  rc=$?
  export FSMC_PART="$T/part"
  if [ $rc -ne 0 ]; then
    cat "$T/out"
    [ $rc -eq 1 ] && exit 1
    # no verdict from the first one: the other may still find a violation
    FSMC_PART= "$CARGO_TARGET_DIR/debug/$BIN" check "$ID"
    [ $? -eq 1 ] && exit 1
    exit $rc
  fi
fi
"$CARGO_TARGET_DIR/debug/$BIN" check "$ID"
