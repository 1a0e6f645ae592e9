#!/bin/bash
# warms the build cache and proves that the checker builds offline
set -eu
cd "$(dirname "$0")/checker"
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o "$tmp/velcheck" .
