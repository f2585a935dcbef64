#!/bin/sh
# Builds the MIR dumper; the checks build everything else from /repo's current tree.
set -e
cd "$(dirname "$0")/dumper"
cargo +nightly build --release --offline -q
mkdir -p ../evidence ../build
