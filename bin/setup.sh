#!/bin/bash
# Builds the harness and warms the std cache.
. /verif/bin/env.sh
cd "$VERIF/harness" || exit 3
cargo build --offline -q || exit 3
mkdir -p "$VERIF/out"
exit 0
