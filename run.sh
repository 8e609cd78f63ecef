#!/bin/bash
# Usage: run.sh PROPERTY [quick|thorough]. Builds the checker from the committed
# sources if needed and decides one property from /repo's current source.
here=$(cd "$(dirname "$0")" && pwd)
bin=$here/checker/bin/tgcheck
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -name '*.go' -newer "$bin" -print -quit)" ]; then
	mkdir -p "$here/checker/bin"
	tmp=$bin.$$
	(cd "$here/checker" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local go build -o "$tmp" .) || exit 2
	mv "$tmp" "$bin"
fi
[ "$1" = build ] && exit 0
export TGCHECK_VERIF=$here
exec "$bin" -property "$1" -tier "${2:-quick}"
