#!/bin/bash
# Runs prog.fer on every execution path with the library build.sh made, and compares what each
# printed with expected.txt (one text for all the paths).
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH=/usr/local/bin:/usr/bin:/bin:$PATH
lib=$(ls -t target/debug/deps/libferlium-*.rlib | head -1)
[ -n "$lib" ] || { echo "no library built"; exit 2; }
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export FERLIUM_STD_CACHE_DIR=$tmp/std
rustc --edition 2024 -C debuginfo=0 -C opt-level=0 "$here/run.rs" -o "$tmp/run" --extern ferlium="$lib" -L dependency=target/debug/deps >"$tmp/build.log" 2>&1 || { tail -20 "$tmp/build.log"; exit 2; }
bad=0
for mode in hir mir opt; do
    "$tmp/run" $mode "$here/prog.fer" >"$tmp/$mode.txt" 2>"$tmp/err.txt" || echo "ended with an error" >>"$tmp/$mode.txt"
    if ! diff "$here/expected.txt" "$tmp/$mode.txt" >"$tmp/d.txt"; then echo "$mode differs:"; cat "$tmp/d.txt"; tail -3 "$tmp/err.txt"; bad=1; fi
done
exit $bad
