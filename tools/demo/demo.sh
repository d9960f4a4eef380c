#!/bin/bash
# Runs main.rs against the libraries in the current directory (the repository).
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS
T=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$here"/*.rs "$T/src/" && cp "$here/Cargo.lock" "$T/" || exit 3
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$T/Cargo.toml"
export CARGO_TARGET_DIR=$T/target
cd "$T" && cargo build --offline -q > build.log 2>&1 || { cat build.log; exit 3; }
timeout 60 "$T/target/debug/demo"
