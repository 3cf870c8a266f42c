#!/bin/bash
# builds the harness in all its variants once; every check rebuilds what changed
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
mkdir -p target
for v in alloc none nonerel paranoid release asan miri; do ./variant.sh $v & done
cargo build --offline; rc=$?
# the variants are built again, and judged, by the checks that use them
wait
exit $rc
