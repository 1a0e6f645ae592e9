#!/bin/bash
# usage: run.sh PROPERTY   (builds the checker from its committed sources and analyses /repo's current tree)
set -u
here=$(cd "$(dirname "$0")" && pwd)
tier=${VERIF_TIER:-quick}
[ "${2:-}" = thorough ] && tier=thorough
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOCACHE=${GOCACHE:-${HOME:-/root}/.cache/go-build}
mkdir -p "$GOCACHE" 2>/dev/null || export GOCACHE=$tmp/gocache
(cd "$here/checker" && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o "$tmp/velcheck" .) || exit 2
"$tmp/velcheck" -repo "${VERIF_REPO:-/repo}" -verif "$here" -prop "$1" -tier "$tier"
