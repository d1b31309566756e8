#!/bin/sh
# builds the extractor and the bounded harness (every check also builds what it needs by itself)
cd "$(dirname "$0")" || exit 1
CARGO_TARGET_DIR="$PWD/.build/vx" cargo build --offline --release -q --manifest-path vx/Cargo.toml || exit 1
python3 tools/overlay.py /repo .build/overlay/flowsdk duality ffi || exit 1
CARGO_TARGET_DIR="$PWD/.build/target" cargo build --offline --release -q --manifest-path harness/Cargo.toml || exit 1
CARGO_TARGET_DIR="$PWD/.build/target" cargo build --offline --release -q --manifest-path harness_pb/Cargo.toml || exit 1
CARGO_TARGET_DIR="$PWD/.build/target" cargo build --offline --release -q --manifest-path harness_ffi/Cargo.toml || exit 1
