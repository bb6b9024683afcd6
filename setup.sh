#!/bin/bash
# builds the verifier from the committed sources (offline)
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/bin"
cd "$here/gvc" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off go build -o "$here/bin/gvc" .
