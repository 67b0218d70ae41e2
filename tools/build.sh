#!/bin/sh
# Builds the analyzer from the committed sources.
set -e
cd "$(dirname "$0")/../analyzer"
mkdir -p ../bin
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/analyzer .
