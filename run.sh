#!/bin/bash
# run.sh <property> [quick|thorough]   decide one property on /repo's tree
# run.sh replay <file>                 run the case of a replay file again
# Exit 0 held, 1 with a VIOLATION line, 3 no answer.
VERIF=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
export GOFLAGS="-mod=mod -buildvcs=false"
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
unset GORACE GODEBUG GOMAXPROCS GOMEMLIMIT GOGC
ulimit -c 0
what=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
prop=$what
if [ "$what" = replay ]; then
  file=$(realpath "$2")
  prop=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$file")
fi
B=$(mktemp -d /tmp/llv-build-XXXXXX) || exit 3
trap 'rm -rf "$B"' EXIT
flags="-cover -covermode=atomic -coverpkg=llverif,github.com/TooManySugar/ll1parser/pkg/..."
# with the race detector without counters: atomic ones order the goroutines
[ "$prop" = C08 ] && flags=-race
cd "$VERIF/harness" || exit 3
if ! go build $flags -o "$B/vmon" . 2>"$B/log"; then
  cat "$B/log"; echo "ERROR property=$prop: build failed"; exit 3
fi
case $prop in C11|C15)
  for e in json parseownsyntax; do
    (cd /repo && go build -o "$B/$e" ./examples/$e) 2>"$B/log" || {
      cat "$B/log"; echo "ERROR property=$prop: build of example $e failed"; exit 3; }
  done
  export LLV_BIN=$B ;;
esac
cd "$VERIF" || exit 3
if [ "$what" = replay ]; then
  mkdir "$B/cov"; GOCOVERDIR=$B/cov LLV_TMP=$B "$B/vmon" replay -file "$file"; exit $?
fi
GOCOVERDIR=$B/none "$B/vmon" drive -prop "$prop" -tier "$tier" -seed "$seed" -verif "$VERIF" 2>"$B/err"
rc=$?
grep -v -i 'coverage' "$B/err" >&2
exit $rc
