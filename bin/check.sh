#!/bin/bash
# check.sh ID [quick|thorough]: rebuild the harness from /repo's working tree and run one check.
. /verif/bin/env.sh
cd "$VERIF/harness" || exit 3
cargo build --offline -q 2>"$VERIF/out.build.log" || { tail -40 "$VERIF/out.build.log"; echo "the harness does not build against this tree"; exit 3; }
cd "$VERIF"
exec "$VERIF/.target/debug/vh" check "$@" 2>/dev/null
