#!/bin/bash
# check.sh ID...: builds the analyser when it is missing or older than its sources, then runs it on /repo.
export HOME=/root PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=0 GOWORK=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
bin=$here/bin/gcheck
if [ ! -x "$bin" ] || [ -n "$(find "$here/gcheck" -newer "$bin" -name '*.go' -print -quit)" ]; then
	mkdir -p "$here/bin"
	(cd "$here/gcheck" && GOFLAGS=-mod=vendor go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "cannot build the analyser"; exit 2; }
fi
[ "$1" = build ] && exit 0
exec "$bin" "$@"
