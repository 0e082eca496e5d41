#!/bin/bash
# build.sh <target>: builds build/<target> from the harness and /repo's current sources.
# Exit 0 ok, 3 when the build itself fails.
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
T=$1            # a harness, or <harness>-tsan: the same harness built with ThreadSanitizer
H=${T%-tsan}
B=$V/build/obj-$T
mkdir -p "$B" "$V/build"
APP=$REPO/src/app
INC="-I$V/engine -I$V/harness"
while IFS= read -r d; do INC="$INC -I$d"; done < <(find "$APP" -type d -not -path '*/ut' -not -path '*/ut/*' | sort)
SAN="-fsanitize=address,undefined -fno-sanitize=alignment,vptr -fno-sanitize-recover=all"
[ "$H" = "$T" ] || SAN=-fsanitize=thread
FLAGS="-std=c++20 -O1 -g1 -fno-omit-frame-pointer $SAN -w"
[ -n "${EXTRA_FLAGS:-}" ] && FLAGS="$FLAGS $EXTRA_FLAGS"
WITHOUT=main.cpp
case $H in
  logger) DIRS="common/logger" ;;
  proto) DIRS="common/logger common/ua" ;;
  codec) DIRS="common/logger common/ua/common" ;;
  modbus) DIRS="common/logger modbus" ;;
  ua) DIRS="common/logger common/ua/common ua" ;;
  app) DIRS="common/logger common/reactor common/ua/common ua modbus controller connector detector Deployer.cpp"
       INC="-I$V/harness/stub $INC"; WITHOUT=Reactor.cpp ;;      # virtual reactors instead
  reactor) DIRS="common/logger common/reactor" ;;
  *) DIRS="." ;;
esac
export INC FLAGS B
compile() {
  o=$B/$(echo "$1" | tr '/' '_').o
  g++ $FLAGS $INC -c "$1" -o "$o" || exit 255
}
export -f compile
LIST=$B/files
attempt() {
  { for d in $1; do find "$APP/$d" -name '*.cpp' -not -path '*/ut/*' -not -name main.cpp -not -name $WITHOUT; done | sort -u
    echo "$V/engine/pbt.cpp"
    echo "$V/harness/$H.cpp"; } > "$LIST"
  rm -f "$B"/*.o
  xargs -a "$LIST" -P "$(nproc)" -I{} bash -c 'compile {}' >"$B/log" 2>&1 || { echo "compilation failed" >>"$B/log"; return 1; }
  g++ $FLAGS "$B"/*.o -o "$V/build/$T" -lpthread >"$B/log" 2>&1 || { echo "link failed" >>"$B/log"; return 1; }
}
# The narrow source set is only an economy: when it does not build (code moved to another directory), take everything.
attempt "$DIRS" && exit 0
[ "$DIRS" != . ] && attempt . && exit 0
head -60 "$B/log" >&2
echo "build of $T failed" >&2
exit 3
