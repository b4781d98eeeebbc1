#!/bin/bash
# bash /verif/check.sh <property> : verifies the property's functions in /repo's current tree.
# Exit 0: every obligation was discharged.  Exit 1: a VIOLATION line was printed.
prop=$1
V=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOOS GOARCH GOEXPERIMENT
GO=go1.27.3
export GOVC_GO=$GO
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$GOCACHE" 2>/dev/null
[ -w "$GOCACHE" ] || export GOCACHE=$T/cache
export TMPDIR=$T
cp /repo/go.mod "$T/water.mod" && cp /repo/go.sum "$T/water.sum"
mkdir -p "$V/evidence"
fail() {
  echo "$1"
  printf '%s\n' "$1" > "$V/evidence/replay-$prop.txt"
  cat "$T/log" >> "$V/evidence/replay-$prop.txt" 2>/dev/null
  echo "VIOLATION property=$prop replay=$V/evidence/replay-$prop.txt no-failing-input-found"
  exit 1
}
(cd "$V/govc" && $GO build -o "$T/govc" .) > "$T/log" 2>&1 || { cat "$T/log"; echo "cannot build govc"; exit 2; }
timeout -k 5 ${GOVC_LIMIT:-860} "$T/govc" -modfile "$T/water.mod" -specs "$V/contracts" -prop "$prop" 2>"$T/log"
rc=$?
[ $rc = 0 ] && exit 0
[ $rc = 1 ] && exit 1
tail -20 "$T/log"
fail "the verifier gave no verdict on the current source (exit $rc)"
