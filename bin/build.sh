#!/bin/bash
# Builds the harness against /repo's current working tree.
. /verif/bin/env.sh
cd $VERIF/harness || exit 3
exec cargo build --offline -q "$@"
