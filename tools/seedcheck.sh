#!/bin/bash
# seedcheck.sh [-t] ID... : demo without and with the patch, (-t: build and tests with it,) and the property's check.
here=$(cd "$(dirname "$0")" && pwd); tests=0; [ "${1:-}" = -t ] && { tests=1; shift; }
export DEMO_TARGET_DIR=/tmp/demo-target
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for id in "$@"; do
  d="$here/../seeded/$id"; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash "$d/demo.sh" > /tmp/demo0.log 2>&1; a=$?
  git apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  bash "$d/demo.sh" > /tmp/demo1.log 2>&1; b=$?
  t=-; if [ $tests = 1 ]; then bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo "$id: BUILD FAILS"; bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
    t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/t.json'))
def names(x):
    for k in ('stable','passed','passing','tests'):
        if isinstance(x.get(k),list): return set(x[k])
        if isinstance(x.get(k),dict): return {n for n,v in x[k].items() if v in('pass','passed',True,'ok')}
    return set()
print('tests-lost:%d'%len(names(b)-names(r)), len(names(b)), sorted(names(b)-names(r))[:3])
P
); fi
  c=$(timeout 900 "$here/../run.sh" $p 2>/dev/null | grep -aE '^VIOLATION|held' | head -1 | cut -c1-150)
  git checkout -q -- .
  echo "$id ($p): demo clean=$a patched=$b; $t; check: $c"
  [ $a = 0 ] || tail -5 /tmp/demo0.log
  [ $b != 0 ] || echo "   DEMO DOES NOT FAIL"
  [ $b = 101 ] || tail -3 /tmp/demo1.log
done
