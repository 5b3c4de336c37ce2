#!/bin/bash
# Usage: check.sh ID [-replay FILE]   (tier from VERIF_TIER: quick or thorough)
# Builds the harness of property ID against the current working tree of /repo (instrumented copies
# through a build overlay; /repo itself is not touched), runs it and writes evidence/ID.json.
set -u
ID=${1:?usage: check.sh ID}; shift
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$ROOT
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=${KV_GOCACHE:-/root/.cache/go-build}
REPO=/repo
W=$(mktemp -d "${TMPDIR:-/tmp}/kvw.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
die() { echo "check error: $*" >&2; exit 2; }
lc=$(echo "$ID" | tr A-Z a-z)
H=$ROOT/mc/h/$lc
[ -d "$H" ] || die "no harness $H"
profile=time race=no kache=no pkg=./h/$lc
[ -f "$H/recipe" ] && . "$H/recipe"
cd "$ROOT/mc" || die cd
# The harness is written for go 1.23 (loop variables); run-time defaults stay those of the repository.
gov=$(sed -n 's/^go \([0-9]*\.[0-9]*\).*/\1/p' "$REPO/go.mod")
sed -e 's/^module .*/module kverif/' -e 's/^go .*/go 1.23.0/' -e '/^toolchain/d' "$REPO/go.mod" >"$W/go.mod"
grep -q '^godebug' "$W/go.mod" || printf '\ngodebug default=go%s\n' "$gov" >>"$W/go.mod"
printf '\nrequire github.com/kacheio/kache v0.0.0\nreplace github.com/kacheio/kache => %s\n' "$REPO" >>"$W/go.mod"
cp "$REPO/go.sum" "$W/go.sum"
go build -modfile="$W/go.mod" -o "$W/instr" ./cmd/instr || die "instr build"
build() { # profile out extra-flags...
	local prof=$1 out=$2; shift 2
	mkdir -p "$W/$prof"
	if [ ! -f "$W/$prof/overlay.json" ]; then
		"$W/instr" -repo "$REPO" -out "$W/$prof" -profile "$prof" -export "$ROOT/mc/export" || die "instr"
	fi
	go build -modfile="$W/go.mod" -overlay "$W/$prof/overlay.json" -o "$W/$out" "$@" $pkg || die "build $out"
}
if [ "$race" = yes ]; then
	build "$profile" race -race &
	rp=$!
fi
build "$profile" main
if [ "$race" = yes ]; then wait $rp || die "race build"; export KV_RACE=$W/race; fi
if [ "$kache" = yes ]; then
	(cd "$REPO" && go build -o "$W/kache" ./cmd/kache) || die "kache build"
	export KV_KACHE=$W/kache
fi
export TMPDIR=$W
if [ -n "${KV_KEEP:-}" ]; then cp "$W/main" "$KV_KEEP/main"; [ -f "$W/race" ] && cp "$W/race" "$KV_KEEP/race"; exit 0; fi
"$W/main" "$@"
