#!/bin/bash
# tryseed.sh NAME: confirms a planted bug: demo passes without and fails with it, tests still pass,
# and tells whether the property's check catches it. Restores /repo afterwards.
here=$(cd "$(dirname "$0")/.." && pwd)
s="$here/seeded/$1"; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
(cd /repo && bash "$s/demo.sh" >/tmp/demo0.log 2>&1); d0=$?
git -C /repo apply "$s/patch.diff" || exit 2
bash /opt/vp/build.sh >/tmp/tb.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/to.json >/tmp/tt.log 2>&1
fails=$(python3 -c "import json;d=json.load(open('/tmp/to.json'));print(len(d['passed']),len(d['failed']))")
(cd /repo && bash "$s/demo.sh" >/tmp/demo1.log 2>&1); d1=$?
res=""
for p in $prop ${2:-}; do
	out=$(cd "$here" && VERIF_SEED=1 VERIF_TIER=quick ./check.sh "$p" 2>&1); res="$res $p=$?"
	echo "$out" | tail -4
done
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/tb.log 2>&1
echo "$1: demo unchanged=$d0 patched=$d1 build=$b tests(pass fail)=$fails check:$res"
