#!/bin/bash
# build.sh OUTDIR : builds everything the checks need from the repository's current working tree
# (VH_REPO, default /repo) into OUTDIR. Writes nothing outside OUTDIR and Go's build cache.
set -e
OUT=$1
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VH_REPO:-/repo}
mkdir -p "$OUT"
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GO111MODULE=on GOSUMDB=off

# 1. the workspace exactly as the repository's go.work describes it (plus teamshooter)
mkdir -p "$OUT/ws"
sed -E "s#^([[:space:]]*(use[[:space:]]+)?)\./#\1$REPO/#" "$REPO/go.work" > "$OUT/ws/go.work"
T=$REPO/functions/golang/teamshooter
if [ -f "$T/go.mod" ] && ! grep -q "$T" "$OUT/ws/go.work"; then echo "use $T" >> "$OUT/ws/go.work"; fi
[ -f "$REPO/go.work.sum" ] && cp "$REPO/go.work.sum" "$OUT/ws/go.work.sum"

want() { [ -z "$VH_WANT" ] || [[ ",$VH_WANT," == *",$1,"* ]]; }

# 2. the server, with the shared API packages (workspace) and with its own (deployment)
if want core; then
  (cd "$REPO/core" && GOWORK="$OUT/ws/go.work" go build -o "$OUT/core-ws" .)
  (cd "$REPO/core" && GOWORK=off go build -o "$OUT/core-dep" .)
fi
# 3. the example matchmaker
if want example; then
  (cd "$REPO/matchmaker-example" && GOWORK="$OUT/ws/go.work" go build -o "$OUT/example" .)
fi
# 4. the harness, once with the shared API packages, once with the ones bundled with the core
hwork() { # dir, api package root
  mkdir -p "$1"
  {
    echo "go 1.23"
    echo "use ("
    echo "  $HERE"
    echo "  $REPO/mmf/server"
    for f in soloduel battleroyale teamshooter; do echo "  $REPO/functions/golang/$f"; done
    echo "  $2/pb/v2"
    echo "  $2/api/v2"
    echo ")"
  } > "$1/go.work"
  [ -f "$REPO/go.work.sum" ] && cp "$REPO/go.work.sum" "$1/go.work.sum"
  true
}
hwork "$OUT/hw" "$REPO/pkg"
(cd "$HERE" && GOWORK="$OUT/hw/go.work" go build -o "$OUT/vh" .)
if want alt; then
  hwork "$OUT/hwalt" "$REPO/core/pkg"
  (cd "$HERE" && GOWORK="$OUT/hwalt/go.work" go build -o "$OUT/vh-alt" .)
fi
