#!/bin/bash
# Builds the analyzer from the committed sources (vendored dependencies, offline).
set -e
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off GOWORK=off
GO=$(command -v go1.27 || command -v go1.26 || echo /opt/veriftools/go1.27.3/bin/go)
mkdir -p bin
(cd analyzer && $GO build -o ../bin/vitecheck .)
