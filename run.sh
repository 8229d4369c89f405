#!/bin/bash
# run.sh <property> quick|thorough|replay [replay.json]
# Builds the monitors against /repo's current working tree and runs the check of one property.
set -u
ID=$1; MODE=${2:-quick}
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
SEED=${VERIF_SEED:-1}
WORK=$(mktemp -d /tmp/dgoverif.XXXXXX) || exit 2
trap 'case "$WORK" in /tmp/dgoverif.*) rm -rf -- "$WORK";; esac' EXIT
RACE=
case "$ID" in C22|C21|C20) RACE=-race;; esac
if ! (cd "$HERE/harness" && go build -buildvcs=false $RACE -o "$WORK/dgocheck" . ) 2>"$WORK/build.log"; then
  cat "$WORK/build.log" >&2
  exit 2
fi
case "$MODE" in
  replay)
    ONLY=$(sed -n 's/^ *"only": "\(.*\)",$/\1/p' "$3"); SEED=$(sed -n 's/^ *"seed": \([0-9-]*\),$/\1/p' "$3"); TIER=$(sed -n 's/^ *"tier": "\(.*\)",*$/\1/p' "$3")
    "$WORK/dgocheck" run -prop "$ID" -tier "$TIER" -seed "$SEED" -verif "$HERE" -work "$WORK" -only "$ONLY";;
  *)
    "$WORK/dgocheck" run -prop "$ID" -tier "$MODE" -seed "$SEED" -verif "$HERE" -work "$WORK";;
esac
exit $?
