#!/bin/bash
# Warms the build of the monitors (every check rebuilds what it needs from /repo's tree anyway).
cd "$(dirname "$0")" || exit 1
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/.target/rel RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd harness && cargo build --release --offline --features all
