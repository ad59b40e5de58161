#!/bin/bash
# Builds the server from ./core and the demonstration beside this script, both in a scratch
# directory, and runs the demonstration: exit 0 when the property holds in it, 1 when not.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GO111MODULE=on GOSUMDB=off
mkdir -p "$T/demo" "$T/ws"
cp "$D"/*.go "$T/demo/"
cp "$R/go.work.sum" "$T/ws/" 2>/dev/null
cat > "$T/demo/go.mod" <<X
module demo

go 1.23

require (
	google.golang.org/grpc v1.62.1
	google.golang.org/protobuf v1.33.0
)
X
cp "$R/go.work.sum" "$T/demo/go.work.sum" 2>/dev/null
{
  echo "go 1.23"
  echo "use ("
  echo "  $T/demo"
  for m in mmf/server functions/golang/soloduel functions/golang/battleroyale functions/golang/teamshooter pkg/pb/v2 pkg/api/v2; do echo "  $R/$m"; done
  echo ")"
} > "$T/demo/go.work"
sed -E "s#^([[:space:]]*(use[[:space:]]+)?)\./#\1$R/#" "$R/go.work" > "$T/ws/go.work"
echo "use $R/functions/golang/teamshooter" >> "$T/ws/go.work"
(cd "$R/core" && GOWORK="$T/ws/go.work" go build -o "$T/core" .) || exit 2
(cd "$R/matchmaker-example" && GOWORK="$T/ws/go.work" go build -o "$T/example" .) || exit 2
(cd "$T/demo" && GOWORK="$T/demo/go.work" go build -o "$T/demonstration" .) || exit 2
cd "$T" && CORE="$T/core" EXAMPLE="$T/example" timeout 200 "$T/demonstration"
