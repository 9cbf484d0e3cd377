#!/bin/bash
# check.sh <property> <quick|thorough>: build the harness against /repo's working tree and run one check.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
id=$1 tier=${2:-${VERIF_TIER:-quick}}
feat="" tgt="$here/build/t"
if [ "$id" = C19 ]; then feat=flush_aggregation tgt="$here/build/tfa"; fi
mkdir -p "$here/build" "$here/evidence"
exec 9>"$here/build/lock"
flock 9
if ! bash mc/build.sh "$tgt" $feat >"$here/build/$id.log" 2>&1; then
  tail -40 "$here/build/$id.log"
  echo "check.sh: the harness does not build against this tree"
  exit 2
fi
flock -u 9
exec 9>&-
VERIF_DIR="$here" exec "$tgt/release/mc" check "$id" "$tier"
