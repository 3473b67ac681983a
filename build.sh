#!/bin/bash
# builds the verifier from the committed sources
V="$(cd "$(dirname "$0")" && pwd)"
export HOME=${HOME:-/root} GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GOENV=off
unset GOROOT
GO=/opt/veriftools/go1.27.3/bin/go
[ -x "$GO" ] || GO=go
mkdir -p "$V/bin"
sum=$(cat "$V"/govc/*.go "$V/govc/go.mod" | sha256sum | cut -d' ' -f1)
if [ -x "$V/bin/govc" ] && [ "$(cat "$V/bin/.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
(cd "$V/govc" && "$GO" build -o "$V/bin/govc.tmp" . && mv "$V/bin/govc.tmp" "$V/bin/govc" && echo "$sum" > "$V/bin/.sum")
