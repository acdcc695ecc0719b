#!/bin/bash
# builds the checker from the committed files; offline
cd "$(dirname "$0")" || exit 1
GO=/opt/veriftools/go1.27.3/bin/go
[ -x "$GO" ] || GO=go
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export HOME="${HOME:-/root}"
mkdir -p bin
exec "$GO" build -o bin/checker .
