#!/bin/bash
# Warms the build cache by building the monitors, plain and with the race detector, against /repo.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
W=$(mktemp -d /tmp/dgoverif.XXXXXX)
trap 'case "$W" in /tmp/dgoverif.*) rm -rf -- "$W";; esac' EXIT
cd "$HERE/harness"
go build -buildvcs=false -o "$W/a" .
go build -buildvcs=false -race -o "$W/b" .
