#!/bin/bash
# usage: mkseed.sh ID PROPERTY   -- the change is in the scratch copy /tmp/w (made by mkseed.sh new), the demo in /tmp/demo_test.go
# NEEDS and BREAKS in the environment describe the change.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
w=/tmp/w
if [ "$1" = new ]; then
	rm -rf /tmp/w && git -C /repo worktree prune && cp -a /repo /tmp/w && git -C /tmp/w checkout -q -- . && exit 0
fi
id=$1 prop=$2
d=$here/seeded/$id
mkdir -p "$d"
git -C $w diff >"$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
cp /tmp/demo_test.go "$d/demo_test.go"; grep -q "^package" /tmp/demo_test.go || cat "$here/tools/demo_base.txt" /tmp/demo_test.go >"$d/demo_test.go"
cat >"$d/demo.sh" <<'X'
#!/bin/bash
# run in /repo: exit 0 when the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export TMPDIR=$t GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
echo "{\"Replace\": {\"$PWD/zz_demo_test.go\": \"$here/demo_test.go\"}}" >"$t/overlay.json"
go test -overlay "$t/overlay.json" -run '^TestDemo$' -count=1 -timeout 200s .
X
chmod +x "$d/demo.sh"
python3 - "$prop" "$d" <<'X'
import json,os,sys
json.dump({"property":sys.argv[1],"needs":os.environ["NEEDS"],"what_it_breaks":os.environ["BREAKS"]},open(sys.argv[2]+"/meta.json","w"),indent=1)
X
(cd /repo && "$d/demo.sh" >/tmp/demo.out 2>&1) || { echo "DEMO FAILS ON CLEAN"; tail -20 /tmp/demo.out; exit 1; }
if (cd $w && "$d/demo.sh" >/tmp/demo.out 2>&1); then echo "DEMO PASSES WITH PATCH"; exit 1; fi
grep -m2 -- "zz_demo\|panic" /tmp/demo.out || tail -5 /tmp/demo.out
# existing tests with the change
sed 's#/repo#/tmp/w#g' /opt/vp/test.sh >/tmp/wtest.sh && bash /tmp/wtest.sh /tmp/wout.json >/dev/null 2>&1
python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
o=json.load(open('/tmp/wout.json'))
print('missing tests:', sorted(set(b)-set(o['passed'])))
X
git -C /repo status --short | head -3
