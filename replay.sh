#!/bin/bash
# replay.sh FILE: re-executes a replay file against /repo's working tree;
# exit 1 when the violation shows again, 0 when the run is clean.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/build"
out=$(mktemp -d "$here/build/replay.XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT
bash "$here/build.sh" "$out" >/dev/null || exit 2
"$out/harness" replay "$@"
