#!/bin/bash
# check.sh PROPERTY : builds everything from /repo's working tree and runs one check.
# Environment: VERIF_SEED, VERIF_TIER (quick|thorough); VH_REPO (default /repo).
ID=$1
HERE=$(cd "$(dirname "$0")" && pwd)
B=$(mktemp -d /tmp/vhbuild.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
case $ID in
  C11|C17) export VH_WANT=none ;;
  C18) export VH_WANT=core,alt ;;
  C21) export VH_WANT=example ;;
  *) export VH_WANT=core ;;
esac
if ! "$HERE/harness/build.sh" "$B" >"$B/log" 2>&1; then
  cat "$B/log" >&2
  echo "build failed" >&2
  exit 2
fi
shift
"$B/vh" run -dir "$B" -verif "$HERE" "$@" "$ID"
