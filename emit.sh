#!/bin/bash
# emit.sh CONFIG OUTDIR : compiles /repo/libm and the wrapper crate to LLVM IR for one configuration.
# CONFIG = <arch|none|soft|intr|stbl>[+methods]-<dbg|rel|sep>; stbl is the stable subset (no f16, f128); +methods adds one entry point per Libm<T> method; sep keeps the calls of the source
set -e
cfg=$1; out=$(realpath -m "$2")
here=$(cd "$(dirname "$0")" && pwd)
feat=${cfg%-*}; prof=${cfg#*-}
M=""; case $feat in *+methods) M=",methods"; feat=${feat%+methods};; esac
case $feat in arch) F="x,arch";; none) F="x";; soft) F="x,soft";; intr) F="x,arch,intr";; stbl) F="arch";; *) exit 2;; esac
P='cgscc(inline),function(sroa,early-cse,instsimplify,simplifycfg,sccp,adce,simplifycfg,loop-simplify,lcssa)'
[ $prof = sep ] && P=${P#cgscc(inline),}
R="--emit=llvm-ir -Ccodegen-units=1 -Cdebuginfo=1 -Cpanic=abort -Cno-prepopulate-passes -Cpasses=$P"
if [ $prof = dbg ]; then R="$R -Cdebug-assertions=on -Coverflow-checks=on"; fi
tgt=$(mktemp -d /tmp/vwrap.XXXXXX)
trap 'rm -rf "$tgt"' EXIT
cd "$here/wrap"
export RUSTUP_TOOLCHAIN=nightly-2025-04-20 RUSTFLAGS="$R" CARGO_TARGET_DIR="$tgt" CARGO_NET_OFFLINE=true
unset CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
cargo build --release --offline --lib --features "$F$M" > "$tgt/log" 2>&1 || { cat "$tgt/log" | grep -E '^(error|  -->)' -A6 | head -60; exit 3; }
mkdir -p "$out"
mv "$tgt"/release/deps/libm-*.ll "$out/libm.ll"
mv "$tgt"/release/deps/vwrap-*.ll "$out/wrap.ll"
