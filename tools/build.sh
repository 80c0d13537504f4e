#!/bin/bash
# build.sh BIN: build one harness from /repo's current source, as whole-program
# LLVM bitcode and as a native executable (for replays).
set -e
export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=/verif/build/target CARGO_NET_OFFLINE=true
export RUSTFLAGS="-Cno-vectorize-loops -Cno-vectorize-slp --cfg ethersync_verif -Awarnings"
cd /verif/harness
cargo rustc --offline --release -q -Zbuild-std=std,panic_abort --target x86_64-unknown-linux-gnu --bin "$1" -- -Csave-temps
