#!/bin/bash
# ir.sh BIN OUT.ll ENTRY... : textual IR of everything reachable from the entries.
set -e
T=/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin
BC=$(ls -t /verif/build/target/x86_64-unknown-linux-gnu/release/build/harness/*/out/$1.*.lto.input.bc | head -1)
OUT=$2; shift 2
LIST=$(IFS=,; echo "$*")
IC='instcombine<no-verify-fixpoint>'
$T/opt -passes='internalize,globaldce' -internalize-public-api-list="$LIST" "$BC" -o "$OUT.bc"
$T/opt -passes="function(sroa,early-cse,simplifycfg,$IC),globaldce,cgscc(inline),function(sroa,early-cse,simplifycfg,$IC),globaldce,function(lower-atomic,scalarizer<load-store>)" "$OUT.bc" -S -o "$OUT"
rm -f "$OUT.bc"
