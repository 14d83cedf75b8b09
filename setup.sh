#!/bin/bash
# Builds the condition generator gv from the committed files.
cd "$(dirname "$0")/gv" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
mkdir -p ../bin && go build -o ../bin/gv .
