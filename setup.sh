#!/bin/bash
# Builds every harness once, so that a broken toolchain shows here and not in a check.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence replays
for t in $(awk '{print $2; if ($3) print $2 "-" $3}' harness/targets | sort -u); do ./build.sh "$t" || exit 1; done
