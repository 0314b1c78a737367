#!/bin/bash
# dev helper: build IR + native for a harness crate
. /verif/env.sh
cd /verif/ws
c=$1
CARGO_TARGET_DIR=/verif/build/target cargo rustc --release -p $c --lib --crate-type staticlib --offline -- --emit=llvm-ir -C codegen-units=1 2>&1 | grep -E "^error" -A6
CARGO_TARGET_DIR=/verif/build/target cargo build --profile native -p $c --features native --bin replay_${c#h_} --offline 2>&1 | grep -E "^error" -A6
ls -t /verif/build/target/release/deps/$c-*.ll | head -1
