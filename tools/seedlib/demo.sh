#!/bin/bash
# Runs in the repository's root, after its build. Exit 0: the property holds here.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cargo build --lib --offline >"$tmp/build.log" 2>&1 || { cat "$tmp/build.log"; exit 3; }
rustc --edition 2021 -A warnings "$here/demo.rs" --extern miniboosts=target/debug/libminiboosts.rlib \
  -L dependency=target/debug/deps -o "$tmp/demo" || exit 3
mkdir "$tmp/files"
DEMO_TMP="$tmp/files" timeout 250 "$tmp/demo"
