#!/bin/bash
# usage: run.sh <property id> [thorough]
# Builds the harness from /repo's working tree and runs the check of one property: first in a build with debug
# assertions and overflow checks, then (if the property held) in a plain release build, with another seed.
set -u
ID=${1:?property id}
[ "${2:-}" = thorough ] && export VERIF_TIER=thorough
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
export VERIF_DEADLINE=$(( $(date +%s) + $([ "$VERIF_TIER" = thorough ] && echo 21600 || echo 870) ))
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset NO_COLOR RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
cd "$VERIF_DIR/harness" || exit 2
LOG=$VERIF_DIR/target/build.log
mkdir -p "$VERIF_DIR/target" "$VERIF_DIR/evidence"
rm -f "$VERIF_DIR/evidence/$ID.json" "$VERIF_DIR/replay/$ID.txt"

# build <profile>: sets BIN
build() {
  BIN=$VERIF_DIR/target/$1/bharness
  if ! RUSTFLAGS="--cfg barbarosa_verif" CARGO_TARGET_DIR=$VERIF_DIR/target cargo build --profile "$1" --offline --locked --bin bharness >"$LOG" 2>&1; then
    # the hooks may not fit a tree in which the hooked items moved: do without them
    echo "note: building without the hooks"
    BIN=$VERIF_DIR/target-nohooks/$1/bharness
    if ! RUSTFLAGS="" CARGO_TARGET_DIR=$VERIF_DIR/target-nohooks cargo build --profile "$1" --offline --locked --bin bharness >>"$LOG" 2>&1; then
      tail -60 "$LOG" >&2
      echo "ERROR: the harness does not build" >&2
      exit 2
    fi
  fi
  export VERIF_HARNESS=$BIN
}

build release
case $ID in
  # these choose their builds themselves
  C22|C24) exec "$BIN" "$ID" ;;
esac
"$BIN" "$ID"
rc=$?
[ $rc = 0 ] || exit $rc
build plain
VERIF_PLAIN=1 VERIF_NO_GENERATION=1 exec "$BIN" "$ID"
