#!/bin/bash
# cwd: the repository. Builds the demonstration against its sources in a scratch directory.
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "$W"' EXIT
cp -a "$D/demo_ws/." "$W/"
sed -i "s#REPO#$R#" "$W/bitcoin/Cargo.toml"
cd "$W"
export RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true RUSTFLAGS=--cap-lints=warn CARGO_TARGET_DIR="$W/target"
unset RUSTC_WRAPPER
cargo build -q --offline -p demo > build.log 2>&1 || { tail -50 build.log; exit 3; }
"$W/target/debug/demo"
