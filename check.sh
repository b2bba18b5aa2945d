#!/bin/bash
# usage: check.sh ID [quick|thorough]
#        check.sh replay FILE
# Builds the monitors together with the library from /repo's working tree and
# runs those of one property. Exit status: 0 held, 1 violated, 2 could not be
# built, 3 inconclusive.
export PATH=/usr/local/go/bin:$PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d "${TMPDIR:-/tmp}/vmon.XXXXXX") || exit 2
trap 'rm -rf -- "${out:?}"' EXIT
[ -n "$2" ] && [ "$1" != replay ] && export VERIF_TIER=$2

id=$1
[ "$1" = replay ] && id=$(sed -n 's/^ *"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
race=
case $id in X*) race=-race ;; esac

if ! (cd "$here/harness" && go build $race -o "$out/vmon" .); then
    echo "the monitors do not build against /repo" >&2
    exit 2
fi
if [ "$1" = replay ]; then
    "$out/vmon" replay "$2"
else
    "$out/vmon" run "$1"
fi
exit $?
