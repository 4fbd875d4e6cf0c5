#!/bin/bash
# Builds the checking engine from the committed sources (offline).
set -e
cd "$(dirname "$0")"
mkdir -p bin evidence replays
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
(cd engine && go build -o ../bin/gosym.tmp.$$ .)
mv bin/gosym.tmp.$$ bin/gosym
