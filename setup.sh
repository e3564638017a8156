#!/bin/bash
# Build the model checker once, so that the checks only rebuild what changed.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/env.sh"
build_mc --bins --features std && build_mc --bin plain --no-default-features --features plain
