#!/bin/sh
# Builds the harness, the compiler server and the command line program from /repo as it is now.
set -e
V=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS= CARGO_TERM_COLOR=never
unset CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC_WRAPPER
q() { "$@" >"$V/target/build.log" 2>&1 || { cat "$V/target/build.log" >&2; echo "error: build failed: $*" >&2; exit 2; }; }
mkdir -p "$V/target"
q cargo build --offline --locked --manifest-path "$V/harness/Cargo.toml" --target-dir "$V/target/harness"
# modification times say little in a copied tree, so what depends on /repo is always compiled anew
q cargo clean --offline --manifest-path "$V/sut/Cargo.toml" --target-dir "$V/target/sut" -p packetc -p sut
cargo build --offline --locked --manifest-path "$V/sut/Cargo.toml" --target-dir "$V/target/sut" >"$V/target/build.log" 2>&1 ||
    q cargo build --offline --locked --manifest-path "$V/sut/Cargo.toml" --target-dir "$V/target/sut" --no-default-features
q cargo clean --offline --manifest-path /repo/Cargo.toml --target-dir "$V/target/cli" -p packetc
q cargo build --offline --locked --manifest-path /repo/Cargo.toml --target-dir "$V/target/cli" --bin packetc
