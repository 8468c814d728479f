#!/bin/bash
# plant.sh ID PROP PKG 'needs' 'breaks': turns the edit of the scratch copy /tmp/w/repo and /tmp/w/demo_test.go (an
# external test of package PKG) into seeded/ID, after confirming it. Development tool.
set -e
id=$1 prop=$2 pkg=$3
d=/verif/seeded/$id; mkdir -p "$d"
git -C /tmp/w/repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "empty patch"; exit 1; }
if [ -f /tmp/w/demo.sh ]; then cp /tmp/w/demo.sh "$d/demo.sh"; [ -d /tmp/w/files ] && cp -r /tmp/w/files/. "$d/"; else
cp /tmp/w/demo_test.go "$d/demo_test.go.txt"
cat > "$d/demo.sh" <<X
#!/bin/bash
# Runs demo_test.go.txt as a test of ./$pkg through an overlay.
here=\$(cd "\$(dirname "\$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
echo "{\"Replace\": {\"\$PWD/$pkg/zz_seeded_demo_test.go\": \"\$here/demo_test.go.txt\"}}" > "\$t/o.json"
go test -overlay "\$t/o.json" -vet=off -count=1 -timeout 120s -run '^TestSeededDemo\$' ./$pkg
X
fi
chmod +x "$d/demo.sh"
python3 - "$d/meta.json" "$prop" "$4" "$5" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
X
cd /tmp/w/repo
. /opt/vp/env.sh
go build ./... && go vet ./$pkg >/dev/null 2>&1 || true
go test -json -vet=off -count=1 -timeout 2m ./... > /tmp/w/log.json || true
python3 /opt/vp/results.py /tmp/w/out.json gojson:/tmp/w/log.json
python3 - <<'X'
import json
b=json.load(open("/opt/vp/BASELINE.json")); b=b if isinstance(b,list) else b.get("passed") or b.get("tests") or b.get("stable")
o=set(json.load(open("/tmp/w/out.json"))["passed"])
miss=[t for t in b if t not in o]
print("TESTS", "ok" if not miss else "FAIL %s"%miss[:5])
X
echo "with patch:"; if bash $d/demo.sh > /tmp/w/demo.out 2>&1; then echo "  DEMO PASSES (bad)"; else grep -v "^FAIL\|^ok\|^---\|^$" /tmp/w/demo.out | head -4; fi
git stash -q; echo "without:"; bash $d/demo.sh > /tmp/w/demo.out 2>&1 && echo "  demo passes" || { echo "  DEMO FAILS (bad)"; cat /tmp/w/demo.out | head -20; }
git checkout -q -- . ; git stash drop -q; git -C /repo apply --check "$d/patch.diff" && echo applies
