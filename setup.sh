#!/bin/bash
# Builds the instrumenter and the harness once (warms the Go build cache).
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/build" "$here/evidence" "$here/replays"
out=$(mktemp -d "$here/build/setup.XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT
bash "$here/build.sh" "$out"
