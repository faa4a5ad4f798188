#!/bin/bash
# Builds both profiles of the simulator from /repo's current working tree and
# prints the folder that holds them. Sourced paths only; no network.
set -e
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=/repo
export HOME=/root PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2025-07-01-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_ICE=0
export RUSTFLAGS=-Csymbol-mangling-version=v0
unset CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_PROFILE_DEV_PANIC CARGO_PROFILE_RELEASE_PANIC
mkdir -p "$VERIF/target"
# The build is keyed by what it is made from, not by file times.
key=$( { (cd "$REPO" && find . -name .git -prune -o -name target -prune -o -type f \
            \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.md' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum)
         (cd "$VERIF/sim" && find . -name target -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum)
         sha256sum < "$VERIF/build.sh"; } | sha256sum | cut -c1-16)
dir=$VERIF/target/b-$key
exec 9> "$VERIF/target/lock"
flock 9
if [ ! -e "$dir/done" ]; then
    for old in "$VERIF"/target/b-*; do
        [ -d "$old" ] && [ "$old" != "$dir" ] && rm -rf "$old"
    done
    mkdir -p "$dir"
    build() {
        CARGO_TARGET_DIR=$dir/$1 cargo build --offline --locked --quiet --profile "$1" \
            --manifest-path "$VERIF/sim/Cargo.toml" > "$dir/$1.log" 2>&1
    }
    build checked & a=$!
    build shipped & b=$!
    ok=1
    wait $a || ok=0
    wait $b || ok=0
    if [ $ok = 0 ]; then
        cat "$dir"/*.log >&2
        echo "error: the simulator does not build against $REPO" >&2
        exit 2
    fi
    mv "$dir/checked/checked/sim" "$dir/sim-checked"
    mv "$dir/shipped/shipped/sim" "$dir/sim-shipped"
    rm -rf "$dir/checked" "$dir/shipped"
    touch "$dir/done"
fi
echo "$dir"
