#!/bin/bash
# seed.sh ID PKG PROPERTY NEEDS BREAKS: with /tmp/seedw an edited copy of /repo and demo_test.go in /verif/seeded/ID, writes the
# patch, demo.sh and meta.json, and confirms them (builds, tests pass, demo passes only without the patch).
set -eu
id=$1 pkg=$2; d=/verif/seeded/$id
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local TZ=UTC
git -C /tmp/seedw diff > $d/patch.diff
test -s $d/patch.diff
cat > $d/demo.sh <<D
#!/bin/bash
# runs demo_test.go inside $pkg of the current directory's tree
here="\$(cd "\$(dirname "\$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local TZ=UTC
tmp=\$(mktemp -d); trap 'rm -rf "\$tmp"' EXIT
mkdir -p client/dist/assets; [ -e client/dist/assets/.dummy ] || touch client/dist/assets/.dummy
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$here" > "\$tmp/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "\$tmp/o.json" -run '^TestSeededDemo\$' ./$pkg
D
python3 - "$@" <<'P'
import json,sys
i,_,p,n,b=sys.argv[1:6]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
P
cd /tmp/seedw
go build ./... 
go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files" | grep -v "^ok" && { echo "TESTS FAIL with patch"; exit 1; } || true
bash $d/demo.sh > /tmp/demo.out 2>&1 && { echo "DEMO PASSES with patch"; exit 1; }
tail -4 /tmp/demo.out
git -C /tmp/seedw checkout -q -- .
bash $d/demo.sh > /tmp/demo.out 2>&1 || { echo "DEMO FAILS without patch"; cat /tmp/demo.out; exit 1; }
echo "seed $id ok"
