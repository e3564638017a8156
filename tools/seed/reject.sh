#!/bin/bash
# Build the demonstration program next to this script against the crates in the
# current directory, which must be rejected, unlike the same without the lines
# marked with BAD: exits 0 if the property holds for its case.
set -e
src="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
work="$(mktemp -d /tmp/demo.XXXXXXXX)"
trap 'rm -rf -- "${work:?}"' EXIT
mkdir "$work/src"
cat > "$work/Cargo.toml" <<EOF
[workspace]
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
osi = { path = "$repo/lib/osi", features = ["std"] }
sys = { path = "$repo/lib/sys" }
tmp = { path = "$repo/lib/tmp" }
EOF
ulimit -v 8000000
build() {
    cargo build --quiet --offline --manifest-path "$work/Cargo.toml" --target-dir "$work/target"
}
grep -v BAD "$src/demo.rs" > "$work/src/main.rs"
build
sleep 1
cp "$src/demo.rs" "$work/src/main.rs"
if build; then
    echo "program is not rejected" >&2
    exit 1
fi
