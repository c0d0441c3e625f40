#!/bin/bash
# builds the framework from the committed files, offline
set -e
cd "$(dirname "$0")"
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset CARGO_RESOLVER_LOCKFILE_PATH RUSTC_WRAPPER
mkdir -p build evidence
(cd search && CARGO_TARGET_DIR=/verif/build/search RUSTFLAGS="--cfg latex_ast_verif -Awarnings" cargo build --offline --locked --quiet)
if [ -d extract ]; then
  (cd extract && CARGO_TARGET_DIR=/verif/build/extract RUSTFLAGS=-Awarnings cargo build --offline --locked --quiet --release)
fi
