#!/bin/bash
# Builds the verifier, offline, from the committed files.
set -e
cd "$(dirname "$0")/govc"
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:$PATH"
mkdir -p ../bin
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o ../bin/govc .
