#!/usr/bin/env bash
# Builds the harness against /repo's working tree and checks one property.
# usage: run.sh <ID> [--replay FILE] [--cases N] [--only CASE] [--keep-going]
set -u
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_TEST_DEBUG CARGO_INCREMENTAL RUSTFLAGS
export CARGO_TARGET_DIR="${VERIF_TARGET:-$VERIF_DIR/target}"
log="$(mktemp /tmp/verif-build.XXXXXX)"
if ! cargo build --offline --manifest-path "$VERIF_DIR/harness/Cargo.toml" -p verif-harness -p ethersync --bins >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "ERROR the harness does not build" >&2
    exit 2
fi
rm -f "$log"
[ "${1:-}" = "--build" ] && exit 0
exec "$CARGO_TARGET_DIR/debug/verif-harness" "$@"
