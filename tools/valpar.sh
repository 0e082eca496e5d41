#!/bin/bash
# valpar.sh [-j N] [--nocheck] ID...: like valseed.sh, each planted change in private bind mounts of copies of /repo and /verif
J=3; NC=
while :; do case "$1" in -j) J=$2; shift 2;; --nocheck) NC=--nocheck; shift;; *) break;; esac; done
one() {
  i=$1; W=$(mktemp -d /tmp/valpar.XXXXXX)
  cp -a ${SRC:-/repo} $W/repo; mkdir $W/verif; (cd /verif && cp -a $(ls -A | grep -v -x -e build -e replays -e evidence -e .git) $W/verif/)
  [ -d /verif/build ] && cp -a /verif/build $W/verif/build
  unshare -m bash -c "mount --bind $W/repo /repo && mount --bind $W/verif /verif && cd /verif && tools/valseed.sh $NC $i"
  mkdir -p /tmp/valreplays; cp $W/verif/replays/* /tmp/valreplays/ 2>/dev/null
  rm -rf "$W"
}
export -f one; export NC
printf '%s\n' "$@" | xargs -P $J -I{} bash -c 'one {}'
