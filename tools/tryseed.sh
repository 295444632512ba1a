#!/bin/bash
# tryseed.sh ID [CHECK...]: confirms a planted bug (demo passes clean, fails patched; stable tests pass) and runs checks against it.
id=$1; shift; d=/verif/seeded/$id
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
trap 'git -C /repo checkout -- .' EXIT
bash "$d/demo.sh" >/tmp/v/demo-clean.log 2>&1 && echo "$id demo clean: ok" || { echo "$id demo clean: FAILS"; tail -20 /tmp/v/demo-clean.log; }
git apply "$d/patch.diff" || { echo "$id does not apply"; exit 1; }
bash "$d/demo.sh" >/tmp/v/demo-bug.log 2>&1 && echo "$id demo with bug: PASSES (bad)" || { echo "$id demo with bug: fails (good)"; grep -m3 -E "demo|panic|FAIL" /tmp/v/demo-bug.log; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/tmp/v/b.log 2>&1 || echo "$id does not build"
bash /opt/vp/test.sh /tmp/v/out.json >/tmp/v/t.log 2>&1
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/v/out.json'))['passed'])
print('$id tests:', 'ok' if b<=o else 'BROKEN %s'%sorted(b-o)[:5])"
fi
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for c in ${@:-$p}; do (cd /verif && bin/check $c quick > /tmp/v/chk.log 2>&1; rc=$?; echo "$id check $c rc=$rc $([ $rc = 1 ] && echo CAUGHT || echo MISSED)"; grep -v '^\[' /tmp/v/chk.log | head -2 | cut -c1-400); done
