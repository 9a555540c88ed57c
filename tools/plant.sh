#!/bin/bash
# plant.sh <id> <property> <pkgdir>: takes the uncommitted change in the scratch copy /tmp/w as a planted bug.
# Needs /tmp/w (cp -a /repo), the demo test in /tmp/demo_test.go, and NEEDS/BREAKS in the environment.
id=$1; prop=$2; pkg=${3:-.}
d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/w diff > $d/patch.diff
cp /tmp/demo_test.go $d/demo_test.go
cat > $d/demo.sh <<X
#!/bin/bash
# exit 0: the property holds
d=\$(cd "\$(dirname "\$0")" && pwd)
t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
echo "{\"Replace\":{\"\$PWD/$pkg/zz_demo_test.go\":\"\$d/demo_test.go\"}}" > \$t/o.json
timeout 200 go test -count=1 ${RACE:+-race} -overlay \$t/o.json -run 'TestDemo' ./$pkg
X
chmod +x $d/demo.sh
python3 - "$prop" "$NEEDS" "$BREAKS" > $d/meta.json <<'X'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
X
cd /tmp/w && go build ./... && go vet . >/dev/null 2>&1
go test ./... >/tmp/plant.log 2>&1 && echo "tests pass" || { echo "TESTS FAIL"; grep -- '--- FAIL' /tmp/plant.log | head; }
bash $d/demo.sh > /tmp/demo.bug.log 2>&1 && echo "DEMO PASSES WITH BUG" || echo "demo fails with bug (good): $(grep -m1 -E 'demo_test.go|panic|RACE' /tmp/demo.bug.log)"
cd /repo && bash $d/demo.sh > /tmp/demo.ok.log 2>&1 && echo "demo passes on /repo" || { echo "DEMO FAILS ON /repo"; tail -5 /tmp/demo.ok.log; }
cd /verif && bin/graphverif -repo /tmp/w -verif /tmp/vout -property ${CHECK:-$prop} | tail -4
git -C /tmp/w checkout -q -- .
