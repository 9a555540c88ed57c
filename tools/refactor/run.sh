#!/bin/bash
# run.sh <script> <checks,> [names]: applies each rewrite to a copy of /repo and runs the checks on it.
s=$1; c=$2; shift 2
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp -a /repo $d/r; mkdir -p $d/v; cp /verif/KNOWN_FINDINGS.txt $d/v; cp /verif/bin/graphverif $d/gv
for n in ${@:-$(python3 /verif/tools/refactor/$s.py)}; do
  git -C $d/r checkout -q -- .
  if ! python3 /verif/tools/refactor/$s.py $d/r $n 2>$d/err; then echo "$n: rewrite failed: $(tail -1 $d/err)"; continue; fi
  (cd $d/r && gofmt -l . | head -3; go vet . ./math/... >$d/err 2>&1 && go test ./... >$d/err 2>&1) || { echo "$n: does not build or test:"; head -5 $d/err; continue; }
  for x in ${c//,/ }; do
    $d/gv -repo $d/r -verif $d/v -property $x > $d/out 2>&1 && echo "$n $x quiet" || { echo "$n $x ALARM"; grep -v ^OK $d/out | cut -c1-400 | head -${LINES_:-4}; }
  done
done
