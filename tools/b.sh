#!/bin/bash
# developer helper: build the harness quietly
cd /verif/harness && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target cargo build --release --offline "$@" 2>&1 | awk '/^error/{p=1} /^warning/{p=0} p' | head -${LINES_MAX:-80}
