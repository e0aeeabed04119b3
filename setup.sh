#!/bin/bash
# builds the analyser from the committed files, offline
cd "$(dirname "$0")/kcheck" || exit 2
export GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p ../bin && go build -o ../bin/kcheck .
