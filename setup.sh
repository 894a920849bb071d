#!/bin/bash
# builds the verifier from the committed sources, offline
set -e
cd "$(dirname "$0")"
mkdir -p bin evidence
cd gowp && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o ../bin/gowp .
