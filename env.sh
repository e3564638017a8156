export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export VERIF_BASE="$here"
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
build_mc() {
    cargo build --release --offline --quiet \
        --manifest-path "$here/harness/Cargo.toml" --target-dir "$here/target" "$@" 1>&2
}
