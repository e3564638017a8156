#!/bin/bash
# Run the query of the current directory on a small workspace, and compare its
# output: exits 0 if the property holds for this workspace.
set -e
repo="$(pwd)"
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
work="$(mktemp -d /tmp/demo.XXXXXXXX)"
trap 'rm -rf -- "${work:?}"' EXIT
for i in osi sys tmp; do
    mkdir -p "$work/lib/$i"
    printf '[package]\nname = "%s"\nversion = "1.2.3"\n' "$i" > "$work/lib/$i/Cargo.toml"
done
cat > "$work/Cargo.toml" <<'EOF'
[workspace.lints.clippy]
one = "deny"
two = "allow"
[workspace.lints.rust]
three = "allow"
EOF
out="$(PATH_WS="$work" timeout 60 python3 -B "$repo/lib/util/cargo-query.py" | tail -n 1)"
[ "$out" = "clippy::two,three" ]
