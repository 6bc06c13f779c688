#!/bin/bash
# build.sh OUT [extra go build flags]: builds the checker from /repo's working tree plus /verif/mc (through an overlay).
set -e
VERIF_ROOT=${VERIF_ROOT:-$(cd "$(dirname "$0")/.." && pwd)}
REPO=${VERIF_REPO:-/repo}
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
OUT=$1; shift
SCR=$(dirname "$OUT")
python3 "$VERIF_ROOT/tools/overlay.py" "$VERIF_ROOT/mc" "$REPO" "$SCR" > "$SCR/overlay.json"
if [ -n "$VERIF_INST" ]; then # instrumented for the scheduler: VERIF_INST is "all" or a list of directories
  (cd "$VERIF_ROOT/tools/inst" && GOFLAGS= GO111MODULE=off go build -o "$SCR/inst" .)
  [ "$VERIF_INST" = all ] && DIRS= || DIRS=$VERIF_INST
  "$SCR/inst" "$REPO" "$SCR/instrumented" "$SCR/overlay.json" $DIRS
fi
# the scheduler is a module of its own (it has assembly, which an overlay cannot add)
{ cat "$REPO/go.mod"; printf '\nrequire verif.local/sched v0.0.0\nreplace verif.local/sched => %s/sched\n' "$VERIF_ROOT"; } > "$SCR/go.mod"
cp "$REPO/go.sum" "$SCR/go.sum"
set -- -modfile="$SCR/go.mod" "$@"
cd "$REPO"
exec go build -buildvcs=false -overlay "$SCR/overlay.json" -o "$OUT" "$@"
