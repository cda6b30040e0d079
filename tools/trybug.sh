#!/bin/bash
# tools/trybug.sh <patch> <check>... : applies a patch to /repo, runs checks, undoes it.
p=$(realpath "$1"); shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 3; }
git -C /repo apply "$p" || exit 3
for c in "$@"; do
  (cd /verif && timeout 900 ./check $c quick > /tmp/trybug.out 2>&1; rc=$?
   echo "== $(basename $(dirname $p)) $c: exit $rc"; [ $rc = 0 ] || grep -aE "^violation class|HARNESS|VIOLATION|^  |^    \|" /tmp/trybug.out | head -${LINES_MAX:-14}
   tail -1 /tmp/trybug.out | head -c 300; echo)
done
git -C /repo checkout -- .
