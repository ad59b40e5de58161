#!/bin/bash
# Builds everything once (sanity check; every check builds for itself from /repo's working tree).
HERE=$(cd "$(dirname "$0")" && pwd)
B=$(mktemp -d /tmp/vhsetup.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
VH_WANT=core,example,alt "$HERE/harness/build.sh" "$B" || exit 1
"$B/vh" list
