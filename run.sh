#!/bin/bash
# Build the model checker from the current working tree of /repo and decide
# one property: run.sh <property> [--replay FILE]
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/env.sh"
features=(--features std)
case "$1" in
    E02) area=plain; features=(--no-default-features --features plain) ;;
    A*) area=args ;;
    B*) area=binfmt ;;
    D*) area=dbus ;;
    F*) area=ffi ;;
    H*) area=digest ;;
    I*|T*) area=io ;;
    J*) area=json ;;
    C*|E*|M*) area=mem ;;
    R*) area=rng ;;
    S*) area=text ;;
    U*) exec python3 -B "$here/harness/query.py" "$@" ;;
    V*|X*) area=types ;;
    *) echo "run.sh: unknown property" >&2; exit 2 ;;
esac
if ! build_mc --bin "$area" "${features[@]}"; then
    echo "run.sh: build failed" >&2
    exit 2
fi
ulimit -v 25000000
ulimit -c 0
exec "$here/target/release/$area" "$@"
