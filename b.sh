#!/bin/bash
# Developer helper: build the harness.
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=/verif/harness/target-rel
cd /verif/harness && cargo build --release --offline 2>&1 | grep -E "^(error|warning: unused)|^ *--> src|Finished|^ +\|" | head -${1:-40}
