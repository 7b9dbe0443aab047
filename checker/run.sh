#!/bin/bash
# developer helper: build and run some properties verbosely
export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor
cd /verif/checker && go build -o /tmp/wv . || exit 1
ulimit -v 26000000
for p in "$@"; do echo "== $p"; timeout 600 /tmp/wv -repo ${REPO:-/repo} -verif ${VV:-/verif} -prop $p -v $ARGS 2>&1 | cut -c1-${W:-180} | head -${N:-60}; done
