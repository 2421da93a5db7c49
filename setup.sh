#!/bin/bash
# Builds the tools of /verif (offline).
set -e
cd "$(dirname "$0")"
V=$PWD
export RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true
(cd tools/dump && CARGO_TARGET_DIR=$V/.build/dump cargo build --offline -q)
(cd harness && CARGO_TARGET_DIR=$V/.build/harness cargo build --offline -q) || true
(cd harness && CARGO_TARGET_DIR=$V/.build/harness-speedups cargo build --offline -q --features speedups) || true
(cd harness && CARGO_TARGET_DIR=$V/.build/harness-derive cargo build --offline -q --features derive) || true
python3 -c 'from vlib.expand import expanded; expanded("deser")' || true
python3 -c 'import sys; sys.path.insert(0, "."); import vlib.check'
