#!/bin/bash
# Compiles the harness and the library once, so that the build cache is warm for the checks.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off TZ=UTC HOME="${HOME:-/root}"
tmp="$(mktemp -d /tmp/verif-setup-XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$here/evidence"
cd "$here/harness"
go1.27 build -tags verif -o "$tmp/check" ./cmd/check
CGO_ENABLED=1 go1.27 build -race -tags verif -o "$tmp/race" ./cmd/check
