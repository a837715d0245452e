#!/bin/bash
# try.sh ID...: confirms each planted change (builds, tests pass, demonstration) and lists the quick checks that catch it
top="$(cd "$(dirname "$0")/../.." && pwd)"; cd "$top"
export DEMO_TARGET=/tmp/demo-target
for id in "$@"; do
  git -C /repo checkout -q -- .
  git -C /repo apply "$top/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  t="?"; if bash /opt/vp/build.sh >/tmp/try.build 2>&1; then bash /opt/vp/test.sh /tmp/try.json >/tmp/try.test 2>&1; t=$(python3 -c "import json;b=json.load(open('/opt/vp/BASELINE.json'));p=json.load(open('/tmp/try.json'))['passed'];l=b.get('stable') or b.get('passed') or b;print(len(set(l)-set(p)),'of',len(l))" 2>/dev/null); else t="build failed"; fi
  (cd /repo && bash "$top/seeded/$id/demo.sh" >/tmp/try.demo 2>&1); drc=$?
  caught=""
  if [ -z "$NOCHECK" ]; then
    props="${PROPS:-$(cat tools/built.txt)}"
    own=$(python3 -c "import json;print(json.load(open('$top/seeded/$id/meta.json'))['property'])")
    for p in $own $props; do
      [ "$p" = "$own" ] && [ -n "$seen" ] && continue
      out=$(timeout 900 bash check.sh $p quick 2>&1); rc=$?
      [ $rc = 1 ] && caught="$caught $p"
      [ $rc != 0 ] && [ $rc != 1 ] && caught="$caught $p(rc$rc)"
      [ "$p" = "$own" ] && { seen=1; [ -n "$OWN" ] && break; }
    done
    seen=""
  fi
  git -C /repo checkout -q -- .
  (cd /repo && bash "$top/seeded/$id/demo.sh" >/tmp/try.demo0 2>&1); d0=$?
  echo "$id: failed tests=$t demo(bug)=$drc [$(tail -1 /tmp/try.demo)] demo(clean)=$d0 caught by:$caught"
done
