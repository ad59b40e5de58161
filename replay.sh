#!/bin/bash
# replay.sh FILE : builds from /repo's working tree (VH_REPO) and replays a recorded case.
HERE=$(cd "$(dirname "$0")" && pwd)
B=$(mktemp -d /tmp/vhbuild.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
"$HERE/harness/build.sh" "$B" >"$B/log" 2>&1 || { cat "$B/log" >&2; exit 2; }
"$B/vh" replay -dir "$B" -verif "$HERE" "$@"
