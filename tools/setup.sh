#!/bin/bash
# Builds the conformance harness in every feature configuration (the checks rebuild it from /repo's working tree).
set -e
cd "$(dirname "$0")/.."
b() { CARGO_TARGET_DIR=build/target-$1 cargo build --offline --quiet --manifest-path harness/Cargo.toml ${2:+--features $2}; }
b simd simd & p1=$!
b scalar "" & p2=$!
b par simd,par & p3=$!
b parscalar par & p4=$!
wait $p1; wait $p2; wait $p3; wait $p4
echo ready
