#!/bin/bash
# dump.sh OUTDIR [crates]: dump MIR JSON of the canister crates from /repo's working tree.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
OUT=$1; CR=${2:-core_nft,index_icrc7}
. /opt/vp/env.sh
export RUSTUP_TOOLCHAIN=nightly CARGO_INCREMENTAL=0
CACHE=${VERIF_CACHE:-/var/tmp/verif-cache}
mkdir -p "$OUT" "$CACHE"
DRV=$CACHE/driver/release/mirdump
if [ ! -x "$DRV" ] || [ "$V/driver/src/main.rs" -nt "$DRV" ]; then
  (cd "$V/driver" && CARGO_TARGET_DIR=$CACHE/driver cargo build --release --offline --locked >"$CACHE/driver.log" 2>&1) || { cat "$CACHE/driver.log" >&2; exit 3; }
fi
export LD_LIBRARY_PATH=$(rustc --print sysroot)/lib
export CARGO_TARGET_DIR=$CACHE/mir RUSTC_WORKSPACE_WRAPPER=$DRV
export MIRDUMP_CRATES=$CR MIRDUMP_OUT=$OUT
export MIRDUMP_WHITELIST="std::option::Option,std::result::Result,core::option,core::result,std::ops::,core::ops::,std::cmp::,core::cmp::,std::convert::,core::convert::,std::mem::take,std::mem::replace,std::mem::swap,core::mem::,std::default::,core::default,std::pin::,std::future::,std::clone::,std::tuple,minicbor"
export RUSTFLAGS="-Coverflow-checks=no -Cdebug-assertions=no -Zmir-opt-level=1 -Zinline-mir=no -Zalways-encode-mir --cap-lints=allow"
# force the workspace crates to be recompiled (the dump is a side effect of compiling them)
for c in ${CR//,/ }; do rm -rf "$CACHE"/mir/debug/build/$c "$CACHE"/mir/debug/.fingerprint/$c-*; done
rm -f "$OUT"/*.mir.json
P=""; for c in ${CR//,/ }; do P="$P -p $c"; done
T=--lib; case ",$CR," in *,origyn_icrc7_cmdlinetools,*) T=--bins;; esac
cargo check --offline --locked $T --manifest-path ${VERIF_REPO:-/repo}/Cargo.toml $P >"$OUT/cargo.log" 2>&1 || { tail -40 "$OUT/cargo.log" >&2; exit 3; }
