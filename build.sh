#!/bin/bash
# build.sh OUTDIR: instruments /repo's working tree and builds the simulator
# harness from it into OUTDIR/harness; prints the instrumentation level used.
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
out=$1
. /opt/vp/env.sh
export GOFLAGS=
mkdir -p "$out" || exit 2
(cd "$here/sim/instr" && go build -o "$out/instr" .) >"$out/log" 2>&1 || { cat "$out/log" >&2; exit 2; }
for level in 2 1; do
  "$out/instr" -repo "$repo" -sim "$here/sim/zzverif" -out "$out" -level $level >"$out/log" 2>&1 &&
    (cd "$repo" && go build -mod=readonly -overlay "$out/overlay.json" -o "$out/harness" ./zzverif/harness) >>"$out/log" 2>&1 &&
    { echo "instrumentation level $level: $(grep -h instrumented "$out/log" | head -1)"; exit 0; }
done
cat "$out/log" >&2
exit 2
