#!/bin/bash
# wasm.sh CRATE: build the canister's wasm from /repo's working tree, print its path.
. /opt/vp/env.sh
cd ${VERIF_REPO:-/repo}
CARGO_INCREMENTAL=0 cargo rustc --crate-type=cdylib --target wasm32-unknown-unknown --release --locked --offline -p $1 >"${2:-/dev/null}" 2>&1 || exit 3
echo $PWD/target/wasm32-unknown-unknown/release/$1.wasm
