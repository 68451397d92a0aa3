#!/bin/bash
# build the engine; every check builds (or refreshes) what it needs by itself
cd "$(dirname "$0")/engine" && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../.build/engine cargo build --release --offline -q
