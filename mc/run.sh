#!/bin/bash
# Builds the model checker against /repo's working tree and runs it.
# usage: run.sh check PROPERTY quick|thorough | run.sh replay FILE | ...
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="-A bindings_with_variant_name -A warnings"
export CARGO_TARGET_DIR="${MC_TARGET:-$PWD/target}"
export MC_VERIF="${MC_VERIF:-$(dirname "$PWD")}"
log=$(mktemp) || exit 2
if ! cargo build --release --offline --locked >"$log" 2>&1; then
    cat "$log"
    rm -f "$log"
    echo "build failed"
    exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/release/mc" "$@"
