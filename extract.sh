#!/bin/bash
# builds the driver and dumps the resolved MIR of everything reachable from harness/src/roots*.rs
# usage: extract.sh OUT.json   (HARNESS_FLAGS=--no-default-features leaves out the derived definitions)
set -e
cd "$(dirname "$0")"
V=$PWD
B=$V/build
mkdir -p "$B"
python3 engine/gendefs.py
export CARGO_NET_OFFLINE=true
(
  flock 9
  cd "$V/driver" && CARGO_TARGET_DIR=$B/driver cargo +nightly build --offline -q
  LIB=$(rustc +nightly --print sysroot)/lib
  cd "$V/harness"
  # never trust freshness: the crates under analysis are always recompiled
  rm -rf "$B"/target/debug/.fingerprint/ssz_harness-* "$B"/target/debug/.fingerprint/ethereum_ssz* \
    "$B"/target/debug/build/ssz_harness "$B"/target/debug/build/ethereum_ssz "$B"/target/debug/build/ethereum_ssz_derive \
    "$B"/target/debug/incremental
  rm -f "$1"
  CARGO_TARGET_DIR=$B/target RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings" \
    RUSTC_WORKSPACE_WRAPPER=$B/driver/debug/mirdump LD_LIBRARY_PATH=$LIB MIRDUMP_OUT=$1 \
    cargo +nightly check --offline -q $HARNESS_FLAGS
  test -s "$1"
) 9>"$B/lock"
