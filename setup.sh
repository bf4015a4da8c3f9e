#!/bin/bash
cd "$(dirname "$0")" || exit 2
. ./env.sh
cargo build --release --manifest-path harness/Cargo.toml
