#!/bin/bash
# Checks build everything themselves from /repo; this warms the build folders and verifies the toolchain.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/mc/build.sh" "$here/build/t" 2>&1 | tail -3
[ "${PIPESTATUS[0]}" = 0 ] || exit 1
bash "$here/mc/build.sh" "$here/build/tfa" flush_aggregation 2>&1 | tail -3
exit "${PIPESTATUS[0]}"
