#!/bin/bash
# Builds the framework and warms the build cache (also for the race-detector build), and tests the
# reference model against the official test suite. Checks rebuild whatever depends on /repo.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
cd "$here/mc" || exit 2
go run ./selftest /repo/testdata || exit 1
rc=0
for id in C01 C13; do
  out=$("$here/tools/build.sh" $id) || rc=1
  case $out in "$here"/.build/run.*) rm -rf "$out" ;; esac
done
exit $rc
