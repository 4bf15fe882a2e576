#!/bin/bash
# Usage: check.sh build | check.sh <property> [quick|thorough]
# Builds the model checker against /repo's current working tree and decides one property.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$here/mc/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
build() {
    mkdir -p "$CARGO_TARGET_DIR"
    # Cargo goes by modification times; go by content, so that no stale build is ever used.
    local sum
    sum="$(cd /repo && find src Cargo.toml build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)"
    if [ "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" != "$sum" ]; then
        rm -f "$CARGO_TARGET_DIR/repo.sum"
        (cd "$here/mc" && cargo clean -q --release -p scribe 2>/dev/null)
    fi
    (cd "$here/mc" && cargo build -q --release --locked 2>"$CARGO_TARGET_DIR/build.log") || {
        grep -E '^error' -A8 "$CARGO_TARGET_DIR/build.log" >&2
        echo "the model checker does not build against /repo" >&2
        return 1
    }
    echo "$sum" >"$CARGO_TARGET_DIR/repo.sum"
}
build || exit 2
[ "${1:-build}" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/mc" check "$1" --tier "${2:-${VERIF_TIER:-quick}}"
