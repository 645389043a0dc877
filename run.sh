#!/bin/bash
# usage: run.sh <property>; run.sh -replay FILE. Builds the machinery against /repo's working
# tree in a scratch directory, runs the check, and removes the directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
unset GOOS GOARCH GODEBUG GOMAXPROCS
scratch=$(mktemp -d /tmp/mc.XXXXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM
mkdir "$scratch/mod" "$scratch/work" || exit 2
cp -r "$here/mc/." "$scratch/mod/" || exit 2   # go may rewrite go.mod and go.sum
cd "$scratch/mod" || exit 2
mkdir "$scratch/bin" || exit 2
tags=()
prop=${1-}
if [ "$prop" = "-replay" ]; then
    prop=$(sed -n 's/^ *"Check": "\(.*\)",$/\1/p' "$2")
fi
case "$prop" in
C04 | C08 | C20) # with the controlled scheduler
    python3 "$here/rt/gen.py" "$(go env GOROOT)" "$scratch/rt" || exit 2
    tags=(-tags verifrt -overlay "$scratch/rt/overlay.json" -ldflags=-checklinkname=0)
    if [ "$prop" = C20 ]; then
        tags+=(-race)
        export CGO_ENABLED=1 GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
    fi
    ;;
esac
if ! { go build "${tags[@]}" -o "$scratch/mc" . && go build -o "$scratch/bin/" github.com/schemalex/schemalex/cmd/schemadiff github.com/schemalex/schemalex/cmd/schemalex github.com/schemalex/schemalex/cmd/schemalint; } >"$scratch/build.log" 2>&1; then
    cat "$scratch/build.log"
    echo "build failed"
    exit 2
fi
export VERIF_ROOT="$here" VERIF_MC="$scratch"
if [ "$1" = "-build" ]; then
    exit 0
fi
if [ "$1" = "-replay" ]; then
    "$scratch/mc" -replay "$2" -dir "$scratch/work"
    exit
fi
"$scratch/mc" -check "$1" -verif "$here" -dir "$scratch/work"
exit $?
