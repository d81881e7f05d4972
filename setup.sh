#!/bin/bash
# Builds the verifier from the committed sources, offline.
set -e
cd "$(dirname "$0")/govc"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
mkdir -p ../bin
go build -o ../bin/govc .
