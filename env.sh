[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$PWD/target" RUSTFLAGS="--cfg vp_verif" CARGO_NET_OFFLINE=true VP_ROOT="$PWD"
export PATH="$PWD/tools/nonet:$PATH"
mkdir -p "$CARGO_TARGET_DIR"
