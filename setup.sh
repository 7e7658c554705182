#!/bin/bash
# builds the monitors once (checks rebuild incrementally)
cd /verif || exit 1
. /verif/tools/build.sh
build_main || exit 1
build_asan || echo "note: no AddressSanitizer build" >&2
exit 0
