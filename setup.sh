#!/bin/bash
# Warms the Go build cache; every check builds itself from /repo all the same.
cd "$(dirname "$0")/mc" || exit 1
export HOME=${HOME:-/root} GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOWORK=off
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
sed "s|./stubs/table|$PWD/stubs/table|" go.mod > "$T/go.mod" && cp go.sum "$T/go.sum" || exit 1
go build -modfile "$T/go.mod" -o "$T/" ./cmd/... || exit 1
go build -modfile "$T/go.mod" -o "$T/cli" github.com/phil-mansfield/gotetra/render/main || exit 1
