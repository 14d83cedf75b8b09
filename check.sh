#!/bin/bash
# bash check.sh Cxx: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
bash setup.sh || { echo "VIOLATION property=$1 replay=$PWD/setup.sh no-failing-input-found"; exit 1; }
exec ./bin/gv check -prop "$1" -verif "$PWD" ${GV_REPO:+-repo "$GV_REPO"}
