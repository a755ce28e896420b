#!/bin/bash
# run.sh ID | replay FILE | build: builds the harness against /repo's working tree, then runs it
set -u
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR="$VERIF/target" CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
cd "$VERIF/harness" || exit 2
log=$(mktemp) || exit 2
if ! cargo build --offline --locked >"$log" 2>&1; then
    tail -40 "$log" >&2
    rm -f "$log"
    echo "check error: the harness does not build" >&2
    exit 2
fi
# the program itself, for the property that is about it
case "${1:-}" in
build | replay | C21)
    if ! CARGO_TARGET_DIR="$VERIF/target/cli" cargo build --manifest-path /repo/Cargo.toml --all-features --bin asciidocr --offline --locked >"$log" 2>&1; then
        tail -40 "$log" >&2
        rm -f "$log"
        echo "check error: the program does not build" >&2
        exit 2
    fi
    ;;
esac
rm -f "$log"
cd "$VERIF" || exit 2
[ "${1:-}" = build ] && exit 0
export VERIF_DIR="$VERIF"
VH_SCRATCH=$(mktemp -d) || exit 2
export VH_SCRATCH
trap 'rm -rf "$VH_SCRATCH"' EXIT
if [ "${1:-}" = replay ]; then
    "$VERIF/target/debug/vh" replay "$2"
else
    "$VERIF/target/debug/vh" run "$1"
fi
