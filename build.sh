#!/bin/bash
# Builds the simulation binary from /repo's current working tree.
# usage: build.sh OUTDIR   (leaves OUTDIR/dst, OUTDIR/sites.json)
set -eu
export HOME="${HOME:-/root}" GOPATH=/root/go GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS= GOENV=off CGO_ENABLED=0 GONOSUMDB=* GONOSUMCHECK=1
unset GOROOT || true
GO=/opt/veriftools/go1.26.10/bin/go
HERE="$(cd "$(dirname "$0")" && pwd)"
OUT="$1"
REPO="${REPO:-/repo}"
mkdir -p "$OUT"
export GOWORK="$HERE/sim/go.work"
cd "$HERE/sim"
GOWORK=off "$GO" build -o "$OUT/instr" ./cmd/instr
rm -rf "${OUT:?}/src"
# every package of the modules under simulation, except test support
dirs=$(cd "$REPO" && find fsutil stream tarfs vroot vroot-adapter -name '*.go' ! -name '*_test.go' -printf '%h\n' | sort -u |
  grep -vE '(acceptancetest|testhelper|/testdata|/example|/cmd/)' | sed "s|^|$REPO/|")
"$OUT/instr" -root "$REPO" -out "$OUT/src" -overlay "$OUT/overlay.json" -sites "$OUT/sites.json" $dirs
"$GO" build -overlay "$OUT/overlay.json" -o "$OUT/dst" ./cmd/dst
