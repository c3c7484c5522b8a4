#!/bin/bash
# Builds main.rs (beside this file) against /repo in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"
cp "$here/main.rs" "$D/src/main.rs"
cp "$repo/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
psbt-v2 = { path = "$repo", features = ["std", "serde", "base64", "miniscript", "silent-payments"] }
[workspace]
EOT
cd "$D" && CARGO_TARGET_DIR="$D/target" cargo run --offline -q
