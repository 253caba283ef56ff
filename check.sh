#!/bin/bash
# bash check.sh <property> [quick|thorough]   decide a property on /repo's current tree
# bash check.sh replay <file>                 run a recorded violation again
# bash check.sh build <output>                build the explorer only
export HOME=/root PATH=/opt/veriftools/go1.26.10/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
# The explorer for C10: the race detector is on, and an overlay replaces sync and
# sync/atomic in the library by packages whose operations are scheduling points.
# Where the code cannot be scheduled (it starts goroutines, say), it runs as it is.
build_race() {
  mkdir "$work/cov"
  if "$work/mc" -instrument "$work/cov" -repo /repo &&
     (cd "$here/mc" && CGO_ENABLED=1 go build -race -overlay "$work/cov/overlay.json" -o "$work/mc" .); then
    return
  fi
  echo "C10: the code cannot be scheduled; free-running goroutines instead"
  (cd "$here/mc" && CGO_ENABLED=1 go build -race -o "$work/mc" .) || { echo "build failed"; exit 2; }
  free=-free
}
what=${1:?usage: check.sh property [tier]}
if [ "$what" = build ]; then
  cd "$here/mc" && go build -o "$2" .
  exit
fi
(cd "$here/mc" && go build -o "$work/mc" .) || { echo "build failed"; exit 2; }
cd "$here"
mkdir -p evidence replays
if [ "$what" = replay ]; then
  if grep -q '"property": *"C10"' "$2"; then build_race; fi
  "$work/mc" $free -run "$2"
  exit
fi
tier=${2:-${VERIF_TIER:-quick}}
free=
if [ "$what" = C10 ]; then build_race; fi
TMPDIR=$work "$work/mc" $free -prop "$what" -tier "$tier" -evidence "$here/evidence/$what.json" -replays "$here/replays" -known "$here/known_findings.txt"
