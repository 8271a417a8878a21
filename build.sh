#!/bin/bash
# Builds the simulator against /repo's current working tree into $1 (default /verif/.build/sim).
set -e
V="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOSUMDB=off CGO_ENABLED=0 GOWORK=off
REPO=${VERIF_REPO:-/repo}
B="$V/.build"
OUT=${1:-$B/sim}
case "$OUT" in /*) ;; *) OUT="$PWD/$OUT" ;; esac
mkdir -p "$B"
W=$(mktemp -d "$B/mod.XXXXXX")
trap 'rm -rf "$W"' EXIT
cp "$REPO/protocol/go.sum" "$W/go.sum"
{
  echo "module verifsim"
  echo "go 1.23"
  sed -e '/^module/d' -e '/^go /d' -e '/^toolchain /d' "$REPO/protocol/go.mod"
  echo "require github.com/RTann/libsignal-go/protocol v0.0.0"
  echo "replace github.com/RTann/libsignal-go/protocol => $REPO/protocol"
} > "$W/go.mod"
cd "$V/sim"
go build -modfile="$W/go.mod" -o "$OUT.tmp.$$" .
mv -f "$OUT.tmp.$$" "$OUT"
