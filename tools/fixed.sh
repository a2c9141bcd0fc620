#!/bin/sh
# fixed.sh <property> : record the repository's HEAD commit as a repaired defect of that property
R=${VERIF_REPO:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd)
h=$(git -C $R log -1 --format=%h); s=$(git -C $R log -1 --format=%s | sed 's/^fix: //')
echo "fixed: property=$1 $h $s" >> $V/known_findings.txt
