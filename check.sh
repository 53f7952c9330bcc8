#!/bin/bash
# Usage: check.sh ID            decide property ID on /repo's current sources
#        check.sh --replay FILE run a recorded failing input again
# The verifier is built from /verif/tool; nothing is written outside /verif and the temporary folder.
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME=${HOME:-/root}
export PATH=$PATH:/usr/local/go/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GO111MODULE=on
unset GOFLAGS
export GOCACHE=$V/.gocache
mkdir -p bin out evidence "$GOCACHE"
new=1
if [ -x bin/govc ]; then
    new=0
    for f in tool/*.go tool/go.mod; do [ "$f" -nt bin/govc ] && new=1; done
fi
if [ $new = 1 ]; then
    (cd tool && go build -o "../bin/govc.$$" .) || exit 2
    mv "bin/govc.$$" bin/govc
fi
[ "$1" = --build ] && exit 0
if [ "$1" = --replay ]; then
    exec bin/govc -repo "${REPO:-/repo}" -verif "$V" -replay "$2"
fi
exec bin/govc -repo "${REPO:-/repo}" -verif "$V" -property "$1"
