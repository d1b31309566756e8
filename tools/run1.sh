#!/bin/bash
# dev helper: run1.sh template [verus args]
t=$1; shift
mkdir -p /tmp/v
/verif/.build/vx/release/vx ${VERIF_REPO:-/repo} /verif/contracts/$t.rs /tmp/v/$t.rs /tmp/v/$t.json --features ${FEAT:-strict-protocol-compliance} && cd /tmp/v && verus $t.rs "$@"
