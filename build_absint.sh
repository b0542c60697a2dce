#!/bin/bash
cd "$(dirname "$0")/absint" && RUSTUP_TOOLCHAIN=nightly-2025-04-20 RUSTFLAGS= CARGO_TARGET_DIR=../build/absint cargo build --release --offline "$@"
