#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS: with /tmp/seed holding an edited copy of /repo and
# /tmp/demo_test.go the demonstration, checks the planted bug and stores it.
set -e
id=$1 prop=$2 needs=$3 breaks=$4
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
d=/verif/seeded/$id
mkdir -p $d
git -C /tmp/seed diff -- . > $d/patch.diff
test -s $d/patch.diff
cp /tmp/demo_test.go $d/demo_test.go
cat > $d/demo.sh <<'X'
#!/bin/bash
# Runs demo_test.go against the package in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\"Replace\": {\"$PWD/zz_demo_test.go\": \"$d/demo_test.go\"}}" > "$t/overlay.json"
go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' .
X
python3 - "$d" "$prop" "$needs" "$breaks" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
X
(cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1) || { echo "demo fails on the unchanged tree"; tail -20 /tmp/demo.out; exit 1; }
cd /tmp/seed
go build ./... && go build -tags purego ./...
go test -vet=off -count=1 ./... >/tmp/seedtest.out 2>&1 || { echo "EXISTING TESTS FAIL"; grep -- '--- FAIL' /tmp/seedtest.out; exit 1; }
if bash $d/demo.sh >/tmp/demo.out 2>&1; then echo "demo passes with the bug"; exit 1; fi
grep -E 'demo_test|panic' /tmp/demo.out | head -3
git -C /repo apply --check $d/patch.diff
echo "seed $id ok"
git -C /tmp/seed checkout -q -- .
