#!/bin/bash
# builds the verifier from source
set -e
cd "$(dirname "$0")/engine"
mkdir -p ../bin
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o ../bin/engine .
