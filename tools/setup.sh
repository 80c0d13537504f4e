#!/bin/bash
# Builds the engine and, once, every harness, so that the checks only rebuild what changed.
set -e
export CARGO_NET_OFFLINE=true
(cd /verif/engine && CARGO_TARGET_DIR=/verif/build/engine cargo build --release --offline -q)
for b in /verif/harness/src/bin/*.rs; do
  /verif/tools/build.sh "$(basename "$b" .rs)" || echo "harness $(basename "$b") does not build"
done
