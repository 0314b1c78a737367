#!/bin/sh
cd "$(dirname "$0")/engine" && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/build/engine RUSTFLAGS= cargo build --release --offline -q
