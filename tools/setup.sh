#!/bin/bash
# Warms the build cache: checks rebuild from /repo themselves.
cd "$(dirname "$0")/.." || exit 1
S=$(mktemp -d /tmp/vsetup.XXXXXX); trap '/bin/rm -rf "$S"' EXIT
./tools/build.sh "$S/mc" ./zz_verifmc/cmd/mc
