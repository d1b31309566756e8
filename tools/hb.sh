#!/bin/bash
# dev helper: rebuild the harness and run the given properties for MS milliseconds
cd /verif && python3 tools/overlay.py ${REPO:-/repo} .build/overlay/flowsdk && (cd harness && CARGO_TARGET_DIR=/verif/.build/target cargo build --offline --release 2>&1 | grep -E "^(error|warning: unused)" -A9 | head -60)
for p in "$@"; do echo == $p; timeout 200 .build/target/release/fvh $p --seed ${SEED:-1} --budget-ms ${MS:-4000} ${ARGS} | cut -c1-${CUT:-1500}; done
