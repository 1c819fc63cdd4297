#!/bin/bash
# Build the exploration framework once, offline, from the committed files.
cd "$(dirname "$0")/mc" || exit 3
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
mkdir -p ../evidence
cargo build --release --offline --lib || exit 3
cd ../mc-nostd && cargo build --release --offline >/dev/null 2>&1
exit 0
