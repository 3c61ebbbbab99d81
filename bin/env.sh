# Sourced by every script here. Builds a symlink workspace over /repo (whose own manifest has a
# workspace member that cannot be resolved offline, and no Cargo.lock) in /verif/.ws, so that the
# harness crate can path-depend on /repo's current sources without touching /repo.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
export RUST_MIN_STACK=${RUST_MIN_STACK:-67108864}
VERIF=/verif
REPO=${REPO:-/repo}
WS=$VERIF/.ws
export CARGO_TARGET_DIR=$VERIF/.target
mkdir -p "$WS" "$VERIF/evidence"
for entry in "$REPO"/* "$REPO"/.[!.]*; do
    [ -e "$entry" ] || continue
    name=${entry##*/}
    case "$name" in
        .git | .gitignore | Cargo.toml | Cargo.lock | target | fuzz | playground) ;;
        *) [ "$(readlink "$WS/$name" 2>/dev/null)" = "$entry" ] || ln -sfn "$entry" "$WS/$name" ;;
    esac
done
# The manifest without the members that cannot be resolved here; left alone if unchanged.
sed '/^members = /s/, *"fuzz"//; /^members = /s/, *"playground\/script-api"//' "$REPO/Cargo.toml" > "$WS/Cargo.toml.new"
if cmp -s "$WS/Cargo.toml.new" "$WS/Cargo.toml"; then
    rm -f "$WS/Cargo.toml.new"
else
    mv "$WS/Cargo.toml.new" "$WS/Cargo.toml"
fi
cmp -s "$VERIF/harness/ferlium.lock" "$WS/Cargo.lock" || cp "$VERIF/harness/ferlium.lock" "$WS/Cargo.lock"
export FERLIUM_STD_CACHE_DIR=$VERIF/.stdcache
export VERIF
