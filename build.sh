#!/bin/bash
# builds the simulator against /repo's working tree
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$PWD/sim/rustc-wrap.sh"
exec cargo build --release --offline --manifest-path sim/Cargo.toml "$@"
