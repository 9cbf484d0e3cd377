#!/bin/bash
# seed.sh try <id>   : confirm a planted bug in a scratch copy (builds, stable tests pass, demo 0 / nonzero)
# seed.sh catch <id> <property> [tier]: apply it to /repo, run the check, undo
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
id=$2; d=$here/seeded/$id
case $1 in
try)
  . /opt/vp/env.sh
  s=/tmp/sv/repo; mkdir -p /tmp/sv
  [ -d $s ] || cp -a /repo $s
  cd $s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
  export CARGO_TARGET_DIR=$s/target
  if [ -z "${NOBASE:-}" ]; then bash $d/demo.sh; echo "demo on the unchanged tree: $?"; fi
  git apply $d/patch.diff || exit 1
  cargo test --workspace --no-run --offline 2>&1 | grep -E "^(error|warning: unused)" 
  bash $d/demo.sh; echo "demo with the patch: $?"
  if [ -z "${NOTEST:-}" ]; then
  ( timeout 600 cargo test --no-fail-fast --offline --workspace -- --test-threads 8
    timeout 120 cargo test --no-fail-fast --offline -F whitebox_testing --test test_list_collisions
    timeout 120 cargo test --no-fail-fast --offline -F flush_aggregation --test test_flush_agg ) >/tmp/sv/test.log 2>&1
  grep -E "^test .*(FAILED|ok)$|^test result" /tmp/sv/test.log | grep -cE "ok$"; grep -E "^test .*FAILED" /tmp/sv/test.log | head
  fi
  git checkout -q -- . ;;
catch)
  git -C /repo apply $d/patch.diff || exit 1
  bash $here/check.sh $3 ${4:-quick} | tail -4 | cut -c1-400
  git -C /repo checkout -q -- . ;;
esac
