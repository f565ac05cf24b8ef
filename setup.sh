#!/bin/bash
# Builds everything the checks need once, so that dependencies are compiled.
cd "$(dirname "$0")/harness" || exit 1
mkdir -p ../target ../evidence
export VERIF_DIR=$(cd .. && pwd) VERIF_SEED=1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
RUSTFLAGS="--cfg barbarosa_verif" CARGO_TARGET_DIR=../target cargo build --release --offline --locked --bin bharness 2>&1 | tail -3
[ "${PIPESTATUS[0]}" = 0 ] || exit 1
RUSTFLAGS="--cfg barbarosa_verif" CARGO_TARGET_DIR=../target cargo build --profile plain --offline --locked --bin bharness 2>&1 | tail -3
../target/release/bharness child c22-build | tail -c 2000
../target/release/bharness child c24-build | tail -c 3000
exit 0
