#!/bin/bash
# Builds the verifier from the committed, vendored sources.
set -e
cd "$(dirname "$0")/.."
mkdir -p bin out evidence
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
(cd govc && GOFLAGS=-mod=vendor go build -o ../bin/govc .)
