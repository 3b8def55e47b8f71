#!/bin/bash
# developer build (same flags as bin/check)
cd /verif/harness && RUSTFLAGS="-Zsanitizer=address -Awarnings" CARGO_TARGET_DIR=/verif/target/asan cargo +nightly build -q --offline --target x86_64-unknown-linux-gnu 2>&1 | grep -E "^error" -A12 | head -${1:-60}
