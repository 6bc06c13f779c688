#!/bin/bash
# check.sh PROPERTY TIER        run one check (exit 0 held / 1 violated)
# check.sh replay FILE          re-run the one execution recorded in a replay file
VERIF_ROOT=$(cd "$(dirname "$0")" && pwd); export VERIF_ROOT
SCR=$(mktemp -d /tmp/vmc.XXXXXX) || exit 3
trap 'chmod -R u+w "$SCR" 2>/dev/null; /bin/rm -rf "$SCR"' EXIT
if [ "$1" = replay ]; then
  PROP=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2")
else PROP=$1; fi
FLAGS=(./zz_verifmc/cmd/mc)
# tools/sched_props: PROPERTY COMMAND DIRS..., for the properties decided on interleavings
read -r _ CMD DIRS < <(grep "^$PROP " "$VERIF_ROOT/tools/sched_props")
if [ -n "$CMD" ]; then FLAGS=("./zz_verifmc/cmd/$CMD"); export VERIF_INST=$DIRS; fi
{ "$VERIF_ROOT/tools/build.sh" "$SCR/mc" "${FLAGS[@]}" && { [ -z "$CMD" ] || "$VERIF_ROOT/tools/build.sh" "$SCR/mc.race" -race "${FLAGS[@]}"; }
} >"$SCR/build.log" 2>&1 || { cat "$SCR/build.log" >&2; echo "build failed" >&2; exit 3; }
if [ "$1" = replay ]; then "$SCR/mc" -replay "$2"; else "$SCR/mc" -prop "$PROP" -tier "${2:-quick}" "${@:3}"; fi
