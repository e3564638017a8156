#!/bin/bash
# Confirm planted bugs in a scratch copy of /repo: each must apply, compile,
# pass the existing tests, and turn its demonstration from success to failure.
base="$(cd "$(dirname "${BASH_SOURCE[0]}")/../.." && pwd)"
for id in "$@"; do
    dir="$base/seeded/$id"
    scratch="/tmp/seedtry-$$"
    cp -a /repo "$scratch"
    (
        cd "$scratch" || exit 1
        export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
        bash "$dir/demo.sh" >/dev/null 2>&1 && a=ok || a=FAILS-ON-CLEAN
        if ! git apply "$dir/patch.diff"; then echo "$id: patch does not apply"; exit 1; fi
        if ! cargo build --quiet --offline --workspace >/dev/null 2>&1; then echo "$id: does not build"; exit 1; fi
        t="$(cargo test --quiet --offline --workspace --all-features 2>&1 | grep -c '^test result: FAILED\|error')"
        bash "$dir/demo.sh" >/dev/null 2>&1 && b=NOT-SHOWN || b=ok
        echo "$id: clean=$a patched=$b tests-failed=$t"
    )
    rm -rf -- "${scratch:?}"
done
