#!/bin/bash
# coverage.sh CASES WORK: line coverage of the library by the cases dumped with dumpcases.py
set -e
V=$(cd "$(dirname "$0")/.." && pwd); R=${VERIF_REPO:-/repo}
CASES=$(realpath "$1"); W=$2; mkdir -p "$W"; cd "$W"
for d in stream sysex jr values packets ci names; do
  mkdir -p $d; ( cd $d
  for s in "$R"/src/*.cpp "$V"/harness/drv_$d.cpp; do
    g++ -std=c++17 -O0 --coverage -fkeep-inline-functions -w -I "$R/inc" -I "$V/harness" -c "$s" -o $(basename "$s").o
  done
  g++ --coverage *.o -o drv
  for f in "$CASES"/*.drv_$d.default; do [ -e "$f" ] && ./drv < "$f" > /dev/null; done; true )
done
lcov -q -c -d . -o all.info --ignore-errors inconsistent,mismatch,source 2>/dev/null || lcov -q -c -d . -o all.info
lcov -q -e all.info "$R/*" -o repo.info
lcov -l repo.info
