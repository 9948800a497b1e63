#!/bin/sh
# builds the witness/replay harness once and checks that the verifier answers
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
verus --version >/dev/null
CARGO_TARGET_DIR="$PWD/build/ht" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings cargo build --offline --locked -q --manifest-path harness/Cargo.toml
