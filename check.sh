#!/bin/bash
# check.sh ID: build the harness against /repo's working tree and run a check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
log="$here/harness/target/build-$$.log"
mkdir -p "$here/harness/target"
# cargo goes by modification times; a tree put back in place may look old
for f in "$here"/harness/target/debug/.fingerprint/wayfinder-* "$here"/harness/target/debug/.fingerprint/wfcheck-*; do
    if [ -d "$f" ]; then rm -rf "$f"; fi
done
# C37 alone calls the parsers of parts
features=()
if [ "${1:-}" = C37 ] || { [ "${1:-}" = replay ] && grep -q '^property: C37' "${2:-}"; }; then features=(--features parts); fi
if ! (cd "$here/harness" && cargo build --offline --locked "${features[@]}") >"$log" 2>&1; then
    tail -40 "$log" >&2
    echo "ERROR: the harness does not build against /repo" >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
if [ "${1:-}" = "--build" ]; then exit 0; fi
ulimit -v 25000000
exec "$here/harness/target/debug/wfcheck" "$@"
