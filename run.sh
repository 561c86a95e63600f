#!/bin/bash
# Runs one check (or several): bash /verif/run.sh ID...
# Builds the checker into /verif/checker/.bin if it is missing or out of date.
# Exit status: 0 the property holds, 1 it does not.
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
bin="$here/checker/.bin/pgcheck"
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -maxdepth 1 \( -name '*.go' -o -name 'go.*' \) -newer "$bin" 2>/dev/null | head -1)" ]; then
	mkdir -p "$here/checker/.bin"
	tmp="$here/checker/.bin/pgcheck.$$"
	if ! (cd "$here/checker" && go build -o "$tmp" .) >&2; then
		echo "the checker could not be built" >&2
		for id in "$@"; do echo "VIOLATION property=$id replay=none"; done
		exit 1
	fi
	mv "$tmp" "$bin"
fi
[ "$1" = "--setup" ] && exit 0
timeout -k 5 850 "$bin" -repo "${PG_REPO:-/repo}" -verif "${PG_VERIF:-$here}" "$@"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	echo "the check was not completed (status $rc)"
	for id in "$@"; do echo "VIOLATION property=$id replay=none"; done
	rc=1
fi
exit $rc
