#!/bin/bash
# Builds the executor, the LLVM IR of rusty-git with the scenarios, and the native replay build.
# Everything is rebuilt from the current sources (cargo tracks /repo's files); output below target/.
cd "$(dirname "$0")/.." || exit 2
V=$PWD
T=${VERIF_TARGET:-$V/target}
mkdir -p $T
exec 9>$T/.lock
flock 9
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_TARGET_DIR
bash tools/mkpatch.sh >$T/patch.log 2>&1 || { cat $T/patch.log; exit 2; }
( cd engine && cargo build --release --offline --target-dir $T/engine ) >$T/engine.log 2>&1 & A=$!
( cd harness/sym && touch src/main.rs && rm -f $T/sym/release/deps/sym-*.ll && cargo rustc --release --offline --target-dir $T/sym -- --emit=llvm-ir -C link-arg=-Wl,--unresolved-symbols=ignore-all ) >$T/sym.log 2>&1 & B=$!
( cd harness/native && cargo build --offline --target-dir $T/native ) >$T/native.log 2>&1 & C=$!
R=0
wait $A || { tail -40 $T/engine.log; R=2; }
wait $B || { tail -40 $T/sym.log; R=2; }
wait $C || { tail -40 $T/native.log; R=2; }
exit $R
