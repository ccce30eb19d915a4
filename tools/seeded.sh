#!/bin/bash
# seeded.sh ID... : confirm planted bugs in a scratch copy of /repo mounted over /repo in a private namespace:
# demo passes without, fails with the change; the stable tests pass with it; which checks report it.
# Usage: tools/seeded.sh [-n] ID...   (-n: no checks)
S=/tmp/srepo
[ -d $S ] || cp -a /repo $S
[ "$1" = -n ] && { NOCHECK=1; shift; }
export NOCHECK
rm -rf /tmp/sdemo; mkdir -p /tmp/sdemo
git -C $S checkout -q -- . ; git -C $S fetch -q /repo HEAD 2>/dev/null && git -C $S reset -q --hard FETCH_HEAD
for id in "$@"; do cp -a /verif/seeded/$id /tmp/sdemo/$id; done
unshare -Urm bash -s -- "$@" <<'X'
mount --bind /tmp/srepo /repo; cd /repo
build() { bash /opt/vp/build.sh > /tmp/sdemo/build.log 2>&1 || { echo "BUILD FAILED"; grep -m5 -E "error|FAILED" /tmp/sdemo/build.log; return 1; }; }
for id in "$@"; do
  echo "== $id"; d=/tmp/sdemo/$id
  build; timeout 300 bash $d/demo.sh > $d/out0 2>&1; r=$?; [ $r = 0 ] || { echo "demo fails ($r) on the unchanged tree"; tail -5 $d/out0; }
  git apply $d/patch.diff || { echo "patch does not apply"; continue; }
  if build; then
    timeout 300 bash $d/demo.sh > $d/out1 2>&1; r=$?; [ $r = 0 ] && echo "demo PASSES with the change"; tail -2 $d/out1
    bash /opt/vp/test.sh /tmp/sdemo/t.json > /tmp/sdemo/test.log 2>&1
    python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/sdemo/t.json'))
st=b.get('stable') or b.get('passed') or b
print('tests lost:',[x for x in st if x not in set(t['passed'])][:10])
P
    if [ -z "$NOCHECK" ]; then
      p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
      (cd /verif; timeout 900 python3 run.py $p) > $d/check 2>&1; echo "check $p rc $?"; grep -m3 -E "VIOLAT" $d/check | cut -c1-300
    fi
  fi
  git checkout -q -- .
done
build
X
