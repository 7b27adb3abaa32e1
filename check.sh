#!/bin/bash
# check.sh <property>     builds the simulator against /repo's working tree and searches
# check.sh replay <file>  builds likewise and re-executes one recorded case
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
[ "$1" = replay ] && set -- replay "$(realpath "$2")"
cd "$(dirname "$0")" || exit 2
export VERIF_HOME="$PWD" PATH="$PATH:/root/.cargo/bin"
fail() {
  echo "$1" | tail -40
  echo "BUILD FAILED"
  exit 2
}
build() {
  local out
  out=$("$@" 2>&1) || fail "$out"
}
# The client that shares values between threads: rejected by the compiler for that reason?
sendable() {
  local out
  sendsync/build.sh >/dev/null 2>&1 && return
  out=$(sendsync/build.sh 2>&1)
  grep -q 'between threads safely' <<<"$out" || fail "$out"
  export ALGEO_UNSENDABLE="$out"
}
prop=$1
[ "$1" = replay ] && prop=$(sed -n 's/^property //p' "$2")
build sim/build.sh
case $prop in
C13) build cli/build.sh ;;
C04) sendable ;;
esac
if [ "$1" = replay ]; then
  if grep -q '^param sendsync' "$2"; then
    [ -z "$ALGEO_UNSENDABLE" ] && echo "$prop: held" && exit 0
    grep -m1 'between threads safely' <<<"$ALGEO_UNSENDABLE"
    echo "VIOLATION property=$prop replay=$2"
    exit 1
  fi
  exec sim/target/debug/algeo_sim replay "$2"
fi
exec sim/target/debug/algeo_sim check "$1"
