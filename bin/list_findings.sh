#!/bin/bash
# Development aid: prints every failing input of a check's default exploration (hash, signature,
# case). Entries only get into known_findings.txt by hand, after the failure has been diagnosed.
. /verif/bin/env.sh
rm -f /tmp/vh.list
VH_LIST=/tmp/vh.list "$VERIF/.target/debug/vh" check "$1" 2>/dev/null | tail -2
sort -u /tmp/vh.list 2>/dev/null
