#!/bin/bash
# build.sh native <crate> <entry>...: compile the harness crate against /repo (native binary and whole-program bitcode)
# build.sh ir <crate> <entry>...: the optimised IR reachable from the entries, ready for the engine
set -e
phase=$1; crate=$2; shift 2
V=$(cd "$(dirname "$0")/.." && pwd)
B=$V/.build/$crate
mkdir -p $B
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$B/target CARGO_NET_OFFLINE=true
cd $V/harness/$crate
if [ $phase = native ]; then
  rm -f $B/target/debug/deps/h$crate-*.bc
  touch src/main.rs
  cargo rustc --offline -q -- -C save-temps -Awarnings >$B/cargo.log 2>&1 || { cat $B/cargo.log; exit 3; }
  cp $B/target/debug/h$crate $B/native
  exit 0
fi
L=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
bc=$(ls $B/target/debug/deps/h$crate-*.lto.after-restriction.bc)
list=$(echo "$@" $(grep -rhoE 'fn vrfx_[a-z_]+' src | cut -c4-) | tr ' ' ',')
$L/opt -passes='internalize,globaldce' --internalize-public-api-list=$list -S $bc -o $B/a.ll
$V/.build/engine/release/symll prep $B/a.ll $B/b.ll vrf_ ${PREP_EXTRA}
$L/opt -passes='inferattrs,ipsccp,function(sroa,early-cse,simplifycfg,instcombine<max-iterations=1;no-verify-fixpoint>),cgscc(inline,function(sroa,early-cse<memssa>,simplifycfg,instcombine<max-iterations=1;no-verify-fixpoint>)),globaldce' -S $B/b.ll -o $B/$crate.ll
rm -f $B/a.ll $B/b.ll $B/target/debug/deps/h$crate-*.bc
