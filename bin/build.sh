#!/bin/bash
# build.sh DIR: rebuilds the simulator around /repo's current working tree into DIR.
# Leaves /repo untouched. Exit 2 when the build fails (an error, never a verdict).
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
D=$1
REPO=${VERIF_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p "$D" || exit 2
(cd "$V/rewrite" && go build -o "$D/rewrite" .) || { echo "ERROR: cannot build the rewriter" >&2; exit 2; }
rm -rf "$D/src"; cp -r "$V/src" "$D/src" || exit 2
rm -rf "$D/src/sut"; mkdir -p "$D/src/sut"
"$D/rewrite" -repo "$REPO" -src "$V/src" -out "$D/src/sut" -goos linux -accessor "$V/src/accessor/accessor.go.txt" >"$D/rewrite.log" 2>&1 || { cat "$D/rewrite.log" >&2; echo "ERROR: cannot instrument $REPO" >&2; exit 2; }
(cd "$D/src" && go build -o "$D/harness" ./harness) || { echo "ERROR: cannot build the harness over $REPO" >&2; exit 2; }
exit 0
