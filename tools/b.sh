#!/bin/bash
# development helper: build given bins into the shared target directory
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
cd /verif/symx; for b in "$@"; do cargo build --offline --bin $b --features ${b#sx_} > /tmp/b.log 2>&1 || { grep -E "^(error|warning: unused)" -A14 /tmp/b.log | head -${LINES_MAX:-80}; exit 1; }; done
