#!/bin/bash
# check.sh <property> <quick|thorough>: rebuild from /repo's working tree, then decide the property.
cd "$(dirname "$0")" || exit 2
. ./env.sh
cargo build --release --manifest-path harness/Cargo.toml >"$CARGO_TARGET_DIR/build-$$.log" 2>&1 || {
  tail -40 "$CARGO_TARGET_DIR/build-$$.log" >&2
  echo "error: the harness does not build against /repo" >&2
  exit 2
}
rm -f "$CARGO_TARGET_DIR/build-$$.log"
exec "$CARGO_TARGET_DIR/release/vp" "$1" "$2"
