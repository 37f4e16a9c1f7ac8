#!/bin/bash
# try_seed.sh ID: validate a planted bug (build, stable test, demo with and without) and run its check
id=$1
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo checkout -q -- .
demo() { rm -rf /tmp/demo.$$ ; mkdir /tmp/demo.$$; cp -r $d/. /tmp/demo.$$/; rm -f /tmp/demo.$$/*.diff /tmp/demo.$$/meta.json; (cd /repo && timeout 300 bash /tmp/demo.$$/demo.sh >/tmp/demo.$$.log 2>&1); r=$?; tail -3 /tmp/demo.$$.log; rm -rf /tmp/demo.$$ /tmp/demo.$$.log; return $r; }
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "$id: base build failed"; exit 1; }
demo; base=$?
git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if bash /opt/vp/build.sh >/tmp/build.$$ 2>&1; then b=ok; else b=FAIL; tail -5 /tmp/build.$$; fi
bash /opt/vp/test.sh /tmp/test.$$.json >/dev/null 2>&1; t=$(python3 -c "import json;d=json.load(open('/tmp/test.$$.json'));print(d)" | cut -c1-200)
demo; bug=$?
s=$(date +%s)
[ -n "${NOCHECK:-}" ] || { python3 /verif/bin/check.py $prop 2>/tmp/err.$$ | cut -c1-200 | tail -2; c=${PIPESTATUS[0]}; }
e=$(date +%s)
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
echo "SEED $id prop=$prop build=$b test=$t demo_base=$base demo_bug=$bug check=${c:-skipped} ($((e-s)) s)"
rm -f /tmp/build.$$ /tmp/test.$$.json /tmp/err.$$
