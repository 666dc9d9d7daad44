#!/bin/bash
# builds demo.rs against the library in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
spreadsheet-ods = { path = "$repo" }
chrono = { version = "0.4", default-features = false, features = ["clock", "alloc"] }
[profile.dev]
debug = 0
X
cd "$t" || exit 3
export CARGO_TARGET_DIR="$t/target"
cargo build --offline -q || exit 3
"$t/target/debug/demo"
