#!/bin/bash
# builds the SSA exporter from the committed sources (the checks build it themselves when it is missing)
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
mkdir -p build && cd gover/export && go build -o ../../build/gexport .
