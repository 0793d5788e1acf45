#!/bin/bash
# run.sh PROPERTY quick|thorough: builds the explorer and cljfmt from the
# working trees of /verif and /repo and explores one property.
# run.sh replay FILE: runs the one case a violation was found at.
# run.sh build: only builds (warms the build cache).
# run.sh list: lists the properties that have a check.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
VERIF_DIR=$(cd "$(dirname "$0")" && pwd) || exit 2
export VERIF_DIR VERIF_SEED=${VERIF_SEED:-1}
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
export VERIF_BIN=$bin
prop=$1
if [ "$1" = replay ]; then
    prop=$(sed -n 's/^ "property": "\(.*\)",$/\1/p' "$2")
fi
cd "$VERIF_DIR/harness" || exit 2
built=
case "$prop" in
C08|C13|build)
    # goclj with a scheduling point before every statement, and with the
    # race detector
    repo=$(go list -m -f '{{.Dir}}' github.com/cespare/goclj) &&
        mkdir "$bin/instr" &&
        go run ./instr "$repo" "$VERIF_DIR/harness/instr/sched" "$bin/instr" &&
        go build -overlay "$bin/instr/overlay.json" -tags sched -ldflags=-checklinkname=0 -o "$bin/explore" . &&
        built=1
    [ "$prop" = C13 ] || go build -race -o "$bin/explore-race" . || exit 2
    ;;
esac
if [ -z "$built" ] || [ "$prop" = build ]; then
    go build -o "$bin/explore" . || exit 2
fi
go build -o "$bin/cljfmt" github.com/cespare/goclj/cljfmt || exit 2
case "$1" in
build) exit 0 ;;
list) "$bin/explore" list; exit ;;
replay) set -- replay "$2" ;;
*) set -- run "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
"$bin/explore" "$@"
