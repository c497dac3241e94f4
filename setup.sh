#!/bin/bash
# Checks that the tools are there and that the harness builds offline. Every check builds what it needs itself.
cd "$(dirname "$0")" || exit 1
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
python3 --version && cargo --version && cargo +nightly --version || exit 1
mkdir -p evidence
CARGO_TARGET_DIR=target/native cargo build --release --offline -q --manifest-path harness/Cargo.toml --features c01
