#!/bin/bash
# Builds everything once, so that a broken sandbox shows up before the checks run.
V=$(cd "$(dirname "$0")/.." && pwd)
D=$(mktemp -d /tmp/dst-build.XXXXXX) || exit 2
trap 'rm -rf "$D"' EXIT
bash "$V/bin/build.sh" "$D" && echo "setup: the simulator builds"
