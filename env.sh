export RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cap-lints=warn -C no-vectorize-loops -C no-vectorize-slp"
