#!/bin/bash
# Builds every check once (offline), so that the build cache is warm.
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
mkdir -p .build
cd harness || exit 3
for d in cmd/*; do
	id="$(basename "$d")"
	race=""
	[ "$id" = c16 ] && race="-race -gcflags=all=-d=checkptr=0"
	go build $race -o "../.build/$id" "./$d" || exit 3
done
