#!/bin/bash
# build.sh [race]: builds the simulator (with the race detector) from /repo's working tree into /verif/build/bin
set -e
V="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS GOPROXY=off GOSUMDB=off
export GOCACHE="$V/build/gocache"
B="$V/build"
mkdir -p "$B/bin" "$B/gocache"
(cd "$V/prep" && go build -o "$B/bin/prep" .)
"$B/bin/prep" -repo "${VERIF_REPO:-/repo}" -sim "$V/sim" -out "$B/work"
cd "$B/work/src/harness"
if [ "$1" = race ]; then
  go build -race -gcflags=verifsim=-l -overlay "$B/work/overlay.json" -o "$B/bin/simrace" .
else
  go build -overlay "$B/work/overlay.json" -o "$B/bin/sim" .
fi
