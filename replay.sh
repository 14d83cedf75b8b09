#!/bin/bash
# bash replay.sh Cxx: runs the replay of one property on the real code.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
bash setup.sh && exec ./bin/gv replay -prop "$1" -verif "$PWD"
