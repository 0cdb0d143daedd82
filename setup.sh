#!/bin/bash
# builds the MIR dumper and warms the dependency metadata for it
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
( cd "$HERE/driver" && cargo +nightly build --release --offline )
mkdir -p "$HERE/.work"
bash "$HERE/driver/dump.sh" "$HERE/.work/setup.json" /repo
rm -f "$HERE/.work/setup.json"
