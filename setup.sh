#!/bin/bash
# one-time preparation: the source front end
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=nightly-2024-12-30 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
(cd front && cargo build --offline --release)
mkdir -p .work evidence
