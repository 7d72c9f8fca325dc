#!/bin/bash
# builds the MIR dumper (offline, nightly rustc with rustc-dev)
set -e
export PATH="/root/.cargo/bin:$PATH"
cd "$(dirname "$0")/driver"
cargo +nightly build --release --offline 2>&1 | tail -3
ls -l target/release/ | head
