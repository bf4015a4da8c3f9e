#!/bin/bash
# Builds a small program against the crates of the current directory (the repository) and runs
# it: exit 0 if the property holds for the demonstrated history, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work=$(mktemp -d)
trap 'rm -rf -- "$work"' EXIT
cp -r "$here/src" "$here/vendor" "$here/Cargo.lock" "$work/" || exit 3
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$work/Cargo.toml" || exit 3
cd "$work" || exit 3
export CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}" RUSTFLAGS="--cfg vp_verif" CARGO_NET_OFFLINE=true
# the build script of the asset program calls pnpm, which would wait for a network
mkdir -p "$work/nonet" && printf '#!/bin/sh\nexit 1\n' > "$work/nonet/pnpm" && chmod +x "$work/nonet/pnpm"
export PATH="$work/nonet:$PATH"
cargo build > build.log 2>&1 || { tail -40 build.log; exit 4; }
DEMO_REPO="$repo" "$CARGO_TARGET_DIR/debug/demo"
