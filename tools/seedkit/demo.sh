#!/bin/sh
# Builds the small program next to this script against the library in the current directory, and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf -- "$work"' EXIT
mkdir "$work/src"
cp "$here/kit.rs" "$work/src/kit.rs"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$PWD/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
manul = { path = "$PWD/manul", features = ["dev", "tokio"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
rand_core = { version = "0.6.4", features = ["getrandom"] }
tokio = { version = "1", features = ["rt", "sync", "time", "macros"] }
tokio-util = { version = "0.7", default-features = false }
[profile.dev]
debug = false
EOF
cd "$work"
CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true cargo build -q --offline
timeout 120 "$work/target/debug/demo"
