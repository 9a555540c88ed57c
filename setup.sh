#!/bin/bash
# Builds the analyser from the committed, vendored sources. Offline.
cd "$(dirname "$0")/analyzer" || exit 2
mkdir -p ../bin
GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off GOWORK=off go build -o ../bin/graphverif.$$ . && mv -f ../bin/graphverif.$$ ../bin/graphverif
