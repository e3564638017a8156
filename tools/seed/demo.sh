#!/bin/bash
# Build the demonstration program next to this script against the crates in the
# current directory, and run it: exits 0 if the property holds for its case.
set -e
src="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
work="$(mktemp -d /tmp/demo.XXXXXXXX)"
trap 'rm -rf -- "${work:?}"' EXIT
mkdir "$work/src"
cp "$src/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[workspace]
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
osi = { path = "$repo/lib/osi", features = ["std"] }
sys = { path = "$repo/lib/sys" }
tmp = { path = "$repo/lib/tmp" }
EOF
ulimit -v 8000000
cargo build --quiet --offline --manifest-path "$work/Cargo.toml" --target-dir "$work/target"
timeout 60 "$work/target/debug/demo"
