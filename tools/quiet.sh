#!/bin/bash
# tools/quiet.sh <refactoring.diff>... : every check must stay quiet on each behaviour-preserving edit.
cd /verif
for p in "$@"; do
  echo "#### $p"
  LINES_MAX=4 tools/trybug.sh "$p" ${CHECKS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C15 C16 C17 C19 C20}
done
