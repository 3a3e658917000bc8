#!/bin/bash
# Compiles demo.rs against the crates build.sh has just built from the repository (they include RocksDB) and runs it
# in a scratch directory. Exit 0: behaviour as specified; nonzero: broken.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
d=/opt/vp/ws/target/debug/deps
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
for st in $(ls -t "$d"/libomnipaxos_storage-*.rlib); do
  for op in $(ls -t "$d"/libomnipaxos-*.rlib); do
    for se in $(ls -t "$d"/libserde-*.rlib); do
      if rustc --edition 2021 -Awarnings "$here/demo.rs" -o "$w/demo" -L dependency="$d" --extern omnipaxos="$op" --extern omnipaxos_storage="$st" --extern serde="$se" > "$w/log" 2>&1; then
        mkdir "$w/data"
        cd "$w/data"
        timeout 120 "$w/demo" "$w/data"
        exit $?
      fi
    done
  done
done
cat "$w/log"
exit 3
