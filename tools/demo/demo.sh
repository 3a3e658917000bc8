#!/bin/bash
# Builds a scratch mirror of the crates in the current directory (the repository) with demo.rs as a
# program against them, and runs it. Exit 0: behaviour as specified; nonzero: broken.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
for m in omnipaxos omnipaxos_storage omnipaxos_macros; do
  mkdir -p "$w/$m"
  cp -r "$repo/$m/src" "$w/$m/src"
  cp "$repo/$m/"*.md "$w/$m/" 2>/dev/null
  awk '/^\[/{skip = ($0 ~ /dev-dependencies/ || $0 ~ /^\[profile/)} !skip' "$repo/$m/Cargo.toml" > "$w/$m/Cargo.toml"
done
cp "$repo/README.md" "$w/" 2>/dev/null
mkdir -p "$w/demo/src"
cp "$here/demo.rs" "$w/demo/src/main.rs"
cp "$here/h.rs" "$w/demo/src/h.rs"
feat="$(sed -n 's/^\/\/ features: *//p' "$here/demo.rs" | head -1)"
cat > "$w/Cargo.toml" <<E
[workspace]
resolver = "2"
members = ["omnipaxos", "omnipaxos_storage", "omnipaxos_macros", "demo"]
E
cat > "$w/demo/Cargo.toml" <<E
[package]
name = "vwitness"
version = "0.0.0"
edition = "2021"
[[bin]]
name = "demo"
path = "src/main.rs"
[dependencies]
omnipaxos = { path = "../omnipaxos", features = ["serde"${feat:+, $feat}] }
omnipaxos_storage = { path = "../omnipaxos_storage" }
serde = { version = "1.0", features = ["derive"] }
E
cp "$here/Cargo.lock" "$w/Cargo.lock"
cd "$w"
export CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
cargo build --offline -q -p vwitness || exit 3
timeout 120 "$w/target/debug/demo"
