#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory and runs it.
# Everything it writes is in a scratch directory that it removes.
here=$(cd "$(dirname "$0")" && pwd)
crate=$PWD
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
checks=false
grep -q '^// debug-assertions' "$here/main.rs" && checks=true
features=$(sed -n 's#^// features: ##p' "$here/main.rs")
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
poly2tri-rs = { path = "$crate", features = [$features] }
[profile.dev]
debug-assertions = $checks
overflow-checks = false
TOML
cd "$d" && cargo build --offline -q || exit 3
cd "$d" && ulimit -c 0 && timeout 120 ./target/debug/demo
