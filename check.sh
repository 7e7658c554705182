#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Builds the monitors against /repo's current tree and runs the check of one property.
set -u
ID=${1:?property}
TIER=${2:-${VERIF_TIER:-quick}}
cd /verif || exit 2
. /verif/tools/build.sh
build_main || { echo "error: the monitors do not build against /repo" >&2; exit 2; }
ARGS=()
if [ "$ID" = C15 ]; then
    # second build with AddressSanitizer; without a nightly toolchain the check runs without it
    if build_asan; then ARGS+=(--asan "$ASAN_BIN"); else echo "note: no AddressSanitizer build" >&2; fi
fi
exec "$BIN" check "$ID" --tier "$TIER" ${ARGS[@]+"${ARGS[@]}"}
