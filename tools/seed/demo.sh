#!/bin/bash
# builds a small client session against the library and checks its outcome
repo=$PWD
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
cp -r "$d/src" "$t/src" || exit 3
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
default = ["std", "alloc"]
std = []
alloc = []
[dependencies]
gdbstub = { path = "$repo" }
gdbstub_arch = { path = "$repo/gdbstub_arch" }
num-traits = { version = "0.2", default-features = false }
log = "0.4"
bitflags = "2"
managed = { version = "0.8", default-features = false }
T
cd "$t" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$t/target
cargo build --offline -q 2>"$t/log" || { cat "$t/log"; exit 3; }
timeout 60 "$t/target/debug/demo"
