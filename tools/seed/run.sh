#!/bin/bash
# Run the check of each named planted bug against it.
base="$(cd "$(dirname "${BASH_SOURCE[0]}")/../.." && pwd)"
for id in "$@"; do
    p="$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$base/seeded/$id/meta.json")"
    git -C /repo apply "$base/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
    out="$(cd "$base" && VERIF_TIER=quick VERIF_SEED=1 timeout 900 ./run.sh "$p" 2>&1)"
    rc=$?
    git -C /repo checkout -q -- .
    echo "$id ($p): exit $rc $(echo "$out" | grep -m1 '^what:' | cut -c1-150)"
done
