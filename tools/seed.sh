#!/bin/bash
# Usage: seed.sh ID PROPERTY PKGDIR "needs" "what it breaks"  -- the change is the working tree diff of /tmp/wt,
# the demonstration the in-package test on stdin. Confirms the change and stores it under /verif/seeded/ID.
set -e
. /opt/vp/env.sh
id=$1; prop=$2; pkg=$3
d=/verif/seeded/$id; mkdir -p "$d"
cat > "$d/demo.go.txt"
cat > "$d/demo.sh" <<EOS
#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=\$(cd "\$(dirname "\$0")" && pwd)
o=\$(mktemp)
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/demo.go.txt"}}' "\$PWD" "\$here" > "\$o"
timeout 120 go test -vet=off -overlay "\$o" -count=1 -run 'TestZZDemo' ./$pkg
rc=\$?
rm -f "\$o"
exit \$rc
EOS
chmod +x "$d/demo.sh"
git -C /tmp/wt diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo empty patch; exit 1; }
python3 - "$prop" "$4" "$5" > "$d/meta.json" <<'EOS'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
EOS
cd /tmp/wt
go build ./sttp/... ./examples/SimpleSubscribe ./examples/SimpleSubscribeReverse ./examples/SimpleResubscribe || { echo BUILD FAILS; exit 1; }
rm -f /tmp/wt/SimpleSubscribe /tmp/wt/SimpleSubscribeReverse /tmp/wt/SimpleResubscribe
go test -vet=off -count=1 ./sttp/... 2>&1 | grep -E '^(FAIL|---)' && { echo TESTS FAIL; exit 1; }
if bash "$d/demo.sh" > /tmp/demo.out 2>&1; then echo "DEMO DOES NOT FAIL WITH THE CHANGE"; exit 1; fi
tail -5 /tmp/demo.out
git checkout -q -- .
if ! bash "$d/demo.sh" > /tmp/demo.out 2>&1; then cat /tmp/demo.out; echo "DEMO FAILS WITHOUT THE CHANGE"; exit 1; fi
echo "OK $id"
