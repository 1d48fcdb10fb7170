#!/bin/bash
# build.sh ID: builds the model checker against /repo's working tree, prints the directory of the binary.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1
mkdir -p "$here/.build"
out=$(mktemp -d "$here/.build/run.XXXXXX") || exit 2
log=$out/log
cd "$here/mc" || exit 2
race=""; sched=""
if [ "$id" = C13 ]; then race="-race"; sched="-sched"; fi
go build -o "$out/instr" ./instr >>"$log" 2>&1 || { cat "$log" >&2; exit 2; }
build() { go build $race -overlay "$out/overlay.json" -o "$out/mc" ./mc >>"$log" 2>&1; }
if "$out/instr" -repo /repo -shim "$here/mc/verifshim" -out "$out" $sched >>"$log" 2>&1 && build; then
  echo "$out"; exit 0
fi
echo "instrumented build failed, building without instrumentation" >&2
tail -5 "$log" >&2
if [ -n "$sched" ] && "$out/instr" -repo /repo -shim "$here/mc/verifshim" -out "$out" >>"$log" 2>&1 && build; then
  echo "$out"; exit 0
fi
if "$out/instr" -plain -repo /repo -shim "$here/mc/verifshim" -out "$out" >>"$log" 2>&1 && build; then
  echo "$out"; exit 0
fi
cat "$log" >&2
exit 2
