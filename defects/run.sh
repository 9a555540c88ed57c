#!/bin/bash
# Runs the demonstrations against /repo (or $1) through an overlay.
here=$(cd "$(dirname "$0")" && pwd); repo=${1:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
o=$(mktemp); trap 'rm -f "$o"' EXIT
echo "{\"Replace\":{\"$repo/defects_verif_test.go\":\"$here/defects_verif_test.go\"}}" > "$o"
cd "$repo" && go test -overlay "$o" -race -vet=off -count=1 -timeout 60s -run TestDef . 
