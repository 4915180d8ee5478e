#!/bin/bash
# Builds the simulator against /repo's working tree and runs it.
#   run.sh check C01 | run.sh replay FILE | run.sh seed C01 SEED | run.sh build
set -u
root="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$root/sim/target"
export SIM_ROOT="$root"
unset RUSTFLAGS
if ! out=$(cargo build --release --offline --locked --manifest-path "$root/sim/Cargo.toml" 2>&1); then
    printf '%s\n' "$out" >&2
    echo "check error: build failed" >&2
    exit 3
fi
[ "${1:-}" = build ] && exit 0
exec "$root/sim/target/release/pango-sim" "$@"
