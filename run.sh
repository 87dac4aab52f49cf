#!/bin/bash
# run.sh PROPERTY [quick|thorough] [mc flags...]: builds the checker against /repo's working tree and runs it.
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
PROP=${1:?usage: run.sh PROPERTY [quick|thorough]}; shift
TIER=${1:-${VERIF_TIER:-quick}}; [ $# -gt 0 ] && shift
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root}
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOSUMDB=off CGO_ENABLED=0
T=$(mktemp -d "${TMPDIR:-/tmp}/xtorm-mc.XXXXXX") || exit 2
trap 'rm -rf "$T"' EXIT
cp "$VERIF/mc/go.mod" "$T/go.mod"
sort -u "$VERIF/mc/go.sum" /repo/go.sum > "$T/go.sum"
export GOFLAGS="-mod=mod -modfile=$T/go.mod"
build() { (cd "$VERIF/mc" && go build "$@") > "$T/build.log" 2>&1; }
die() { cat "$T/build.log" >&2; echo "build failed" >&2; exit 2; }
# The properties about schedules run on instrumented copies of the sources,
# substituted at build time, without and with the race detector.
# Should a source not take a scheduling point at every statement, points at
# synchronisation alone are used.
sched() {
  build -o "$T/instr" ./cmd/instr || die
  for mode in points sync; do
    rm -rf "$T/ov"
    "$T/instr" /repo "$T/ov" $mode &&
    build -overlay "$T/ov/overlay.json" -o "$T/mc" . &&
    CGO_ENABLED=1 build -race -overlay "$T/ov/overlay.json" -o "$T/mc.race" . && return 0
  done
  return 1
}
case $PROP in
  C18|C19|C20|C21) sched || die ;;
  BUILD) build -o "$T/mc" . || die; sched || die; exit 0 ;;
  *) build -o "$T/mc" . || die ;;
esac
TMPDIR="$T" "$T/mc" -prop "$PROP" -tier "$TIER" -evidence "$VERIF/evidence" "$@"
