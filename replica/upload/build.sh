#!/bin/bash
# build.sh DIR: build the harness around the real uploads.rs of $VERIF_REPO in DIR, binary at DIR/upload
set -e
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
R=${VERIF_REPO:-/repo}; H=$(cd "$(dirname "$0")" && pwd); D=$1; mkdir -p $D/src $D/agent/src
cp $H/agent.rs $D/agent/src/lib.rs; sed "s#@REPO@#$R#" $H/harness.rs > $D/src/main.rs
printf '[package]\nname = "ic-agent"\nversion = "0.40.0"\nedition = "2021"\n[dependencies]\ncandid = "0.10.13"\n' > $D/agent/Cargo.toml
cat > $D/Cargo.toml <<T
[package]
name = "upload"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
ic-agent = { path = "agent" }
core_nft = { path = "$R/src/core_nft" }
candid = "0.10.13"
sha2 = "0.10.2"
anyhow = "1.0.57"
serde = { version = "1.0.137", features = ["derive"] }
url = "2.5.0"
hex = "0.4.3"
T
cp $R/Cargo.lock $D/Cargo.lock
cd $D && CARGO_TARGET_DIR=$D/target RUSTFLAGS="-Awarnings -Clink-arg=-Wl,-z,muldefs" cargo build --offline -q 2> $D/build.log || { tail -30 $D/build.log >&2; exit 1; }
cp $D/target/debug/upload $D/upload
