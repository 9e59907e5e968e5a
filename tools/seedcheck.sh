#!/bin/bash
# tools/seedcheck.sh SEED CHECK...: applies the seeded change to /repo, runs the checks, undoes it
cd "$(dirname "$0")/.." || exit 3
S=$1; shift
[ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 3; }
git -C /repo apply "/verif/seeded/$S/patch.diff" || exit 5
for c in "$@"; do ./check.sh "$c" quick > /tmp/sc.out 2>&1; rc=$?; echo "$S $c exit=$rc $(grep -m1 VIOLATION /tmp/sc.out) $(grep -A1 -m1 VIOLATION /tmp/sc.out | tail -1 | cut -c1-200)"; done
git -C /repo checkout -q -- .
