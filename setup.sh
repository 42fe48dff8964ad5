#!/bin/bash
# Builds the harness and the command line tool once; every check rebuilds what changed by itself.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
cargo build --release --offline --manifest-path harness/Cargo.toml --target-dir harness/target || exit 2
exec cargo build --release --offline --manifest-path /repo/Cargo.toml --target-dir harness/target-cli --bin nlsn-delaunay
