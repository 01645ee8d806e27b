#!/bin/bash
# check.sh PROPERTY quick|thorough: decides one property on /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/build"
out=$(mktemp -d "$here/build/$1.XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT
note=$(bash "$here/build.sh" "$out") || { echo "cannot build the instrumented tree" >&2; exit 2; }
"$out/harness" check -prop "$1" -tier "${2:-quick}" -seed "${VERIF_SEED:-1}" -verif "$here" -built "$note" ${VERIF_ARGS:-}
