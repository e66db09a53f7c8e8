#!/bin/bash
# Builds the symbolic engine from the committed sources (offline).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
if [ -x build/gosym ] && [ -z "$(find gosym -newer build/gosym -name '*.go' -not -path '*/vendor/*' | head -1)" ]; then exit 0; fi
cd gosym
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
export PATH=/usr/local/go/bin:$PATH
GOFLAGS=-mod=vendor go build -o ../build/gosym.$$ . && mv ../build/gosym.$$ ../build/gosym
