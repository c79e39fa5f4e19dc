#!/bin/bash
# Builds the demonstration beside this file against the crate in the current
# directory and runs it: exits 0 if it holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$here/rec.rs" "$t/src/"
features='default-features = false'
grep -q '^// feature: vello' "$here/main.rs" && features='features = ["vello"]'
cat > "$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
velato = { path = "$repo", $features }
kurbo = "0.13.0"
peniko = "0.6.0"
serde_json = "1"
TOML
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t" || exit 2
export CARGO_TARGET_DIR="$t/target"
cargo build --offline --quiet || exit 2
timeout 60 "$t/target/debug/demo"
