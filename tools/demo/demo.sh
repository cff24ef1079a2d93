#!/bin/bash
# Builds main.rs against the crates of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
optivorbis = { path = "$repo/packages/optivorbis" }
vorbis_bitpack = { path = "$repo/packages/vorbis_bitpack" }
ogg = "0.9.2"
[workspace]
[profile.dev]
debug = 0
opt-level = 1
debug-assertions = false
overflow-checks = true
[lints.rust]
warnings = "allow"
T
if grep -q '"PROGRAM"' "$d/src/main.rs"; then
  # the command-line program
  (unset RUSTFLAGS; CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$d/cli" cargo build -q --offline -p optivorbis_cli) || exit 3
  export PROGRAM="$d/cli/debug/optivorbis"
fi
cd "$d" && unset RUSTFLAGS && CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$d/target" timeout 280 cargo run -q --offline
