#!/bin/bash
# dump.sh OUT.json : rebuilds /repo's lib crate with the driver and writes the resolved program.
set -e
OUT=$1; REPO=${2:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export SWRS_DUMP=$OUT SWRS_DUMP_CRATE=swrs RUSTC_WORKSPACE_WRAPPER=$HERE/target/release/swrs-mir-dump RUSTFLAGS="-Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull"
T=$HERE/../.work/target
mkdir -p "$T"
cd "$REPO"
( flock 9
  rm -rf "$T"/debug/.fingerprint/swrs-*
  cargo +nightly check --lib --offline --target-dir "$T"
) 9>"$T/.lock"
