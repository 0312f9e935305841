#!/bin/bash
# usage: run.sh Cxx [--thorough | --replay FILE]
# Builds the check for property Cxx against /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
id="$1"; shift
[ "$1" = --thorough ] && { export VERIF_TIER=thorough; shift; }
lc="${id,,}"
race=""
[ "$id" = C16 ] && race="-race -gcflags=all=-d=checkptr=0"
mkdir -p .build
(cd harness && go build $race -o "../.build/$lc" "./cmd/$lc") || { echo "PROBLEM: build failed"; exit 3; }
exec "./.build/$lc" "$@"
