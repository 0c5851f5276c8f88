#!/bin/bash
# run.sh <property> <quick|thorough>   or   run.sh replay <file>
# Rebuilds the harness against /repo's working tree and runs one check.
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${ZK_REPO:-/repo}
if [ "$1" = replay ]; then
  export ZK_REPLAY=$2
  PROP=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$2" | head -1); TIER=$(sed -n 's/.*"tier": "\([a-z]*\)".*/\1/p' "$2" | head -1)
else
  PROP=$1; TIER=${2:-quick}
fi
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/zkmc.XXXXXX") || exit 3
cleanup() { rm -rf "$SCRATCH"; }
trap cleanup EXIT
export HOME=${HOME:-/root}
export GO111MODULE=off GOPATH=$SCRATCH/gopath GOPROXY=off GOTOOLCHAIN=local GOFLAGS= GOWORK=off
export GOCACHE=${GOCACHE:-$HOME/.cache/go-build}
mkdir -p "$GOCACHE" 2>/dev/null || export GOCACHE=$SCRATCH/gocache
mkdir -p "$GOPATH/src/github.com/mit-dci" "$GOPATH/src/zkmc"
if [ "$PROP" = C26 ]; then
  # the tables are regenerated in a copy, and the harness is built against that copy
  P=$GOPATH/src/github.com/mit-dci/zksigma
  for d in . wire btcec; do
    mkdir -p "$P/$d"
    for f in "$REPO/$d"/*.go; do case $f in *_test.go) ;; *) cp "$f" "$P/$d/" ;; esac; done
  done
  (cd "$P/btcec" && timeout -k 5 200 go generate . >"$SCRATCH/generate.txt" 2>&1; echo $? >"$SCRATCH/generate.rc")
  if [ "$(cat "$SCRATCH/generate.rc")" = 0 ]; then # does the library load them?
    mkdir -p "$GOPATH/src/zkprobe"
    printf 'package main\n\nimport _ "github.com/mit-dci/zksigma"\n\nfunc main() {}\n' > "$GOPATH/src/zkprobe/main.go"
    if ! (cd "$GOPATH/src/zkprobe" && go build -o "$SCRATCH/probe" . && "$SCRATCH/probe") >"$SCRATCH/probe.txt" 2>&1; then
      { echo "the library does not load the generated tables:"; head -c 600 "$SCRATCH/probe.txt"; } >"$SCRATCH/generate.txt"
      echo unusable >"$SCRATCH/generate.rc"
    fi
  fi
  if [ "$(cat "$SCRATCH/generate.rc")" != 0 ]; then cp "$REPO"/btcec/*.go "$P/btcec/"; rm -f "$P"/btcec/*_test.go; fi
else
  ln -s "$REPO" "$GOPATH/src/github.com/mit-dci/zksigma"
fi
cp "$VERIF"/harness/*.go "$GOPATH/src/zkmc/"
cd "$GOPATH/src/zkmc" || exit 3
export ZK_PROP=$PROP ZK_TIER=$TIER ZK_VERIF=$VERIF ZK_SCRATCH=$SCRATCH ZK_BIN=$SCRATCH/zkmc.test ZK_RACEBIN= ZK_32BIN= ZK_FIELDBIN32=
if [ -z "$ZK_BUDGET" ]; then [ "$TIER" = thorough ] && export ZK_BUDGET=780 || export ZK_BUDGET=240; fi
build() { # name, go flags, package
  go test -c -vet=off "${@:3}" -o "$1" "$2" >"$SCRATCH/build.log" 2>&1
}
BIN2=
IN=
[ "$PROP" = C19 ] && IN=field
[ "$PROP" = C18 ] && IN=jac
if [ -n "$IN" ]; then
  # the field type and the formulas are internal to btcec: the harness goes in as an in-package test by overlay
  F=zkmc_${IN}_test.go
  cat > "$SCRATCH/overlay.json" <<OV
{"Replace": {"$GOPATH/src/github.com/mit-dci/zksigma/btcec/$F": "$VERIF/harness/$IN/$F", "$GOPATH/src/github.com/mit-dci/zksigma/btcec/field_test.go": "$VERIF/harness/field/empty_test.go",
 "$REPO/btcec/$F": "$VERIF/harness/$IN/$F", "$REPO/btcec/field_test.go": "$VERIF/harness/field/empty_test.go"}}
OV
  if go test -c -vet=off -overlay "$SCRATCH/overlay.json" -o "$SCRATCH/field.test" github.com/mit-dci/zksigma/btcec >"$SCRATCH/build.log" 2>&1; then
    export ZK_FIELDBIN=$SCRATCH/field.test
  else
    cat "$SCRATCH/build.log" >&2
  fi
fi
if ! build "$ZK_BIN" zkmc; then
  echo "the harness does not build against $REPO:" >&2; cat "$SCRATCH/build.log" >&2; exit 3
fi
if grep -q "^	\"$PROP\":" w32.go; then # some spaces are explored by a 32-bit program too
  mkdir -p "$SCRATCH/32"
  if GOARCH=386 CGO_ENABLED=0 go test -c -vet=off -o "$SCRATCH/32/zkmc.test" zkmc >"$SCRATCH/build32.log" 2>&1 && (cd "$SCRATCH" && ZK_DEV=1 timeout -k 5 60 "$SCRATCH/32/zkmc.test" -test.list Nothing) >>"$SCRATCH/build32.log" 2>&1; then
    export ZK_32BIN=$SCRATCH/32/zkmc.test
    if [ -n "$ZK_FIELDBIN" ]; then
      GOARCH=386 CGO_ENABLED=0 go test -c -vet=off -overlay "$SCRATCH/overlay.json" -o "$SCRATCH/32/field.test" github.com/mit-dci/zksigma/btcec >>"$SCRATCH/build32.log" 2>&1 && export ZK_FIELDBIN32=$SCRATCH/32/field.test
    fi
  else
    echo "no 32-bit program:" >&2; head -c 1000 "$SCRATCH/build32.log" >&2
  fi
fi
if grep -l "Race: *true" $(grep -l "ID: *\"$PROP\"" *.go) >/dev/null 2>&1; then
  if go test -c -vet=off -race -o "$SCRATCH/zkmc.race.test" zkmc >"$SCRATCH/build.log" 2>&1; then
    export ZK_RACEBIN=$SCRATCH/zkmc.race.test
  else
    echo "race build failed" >&2; cat "$SCRATCH/build.log" >&2
  fi
fi
[ -n "$ZK_WARM" ] && exit 0
"$ZK_BIN"
RC=$?
exit $RC
