#!/bin/bash
# tryseed.sh [-n] ID...: applies each planted bug to /repo, runs the stable tests, its demo and its check, and undoes it.
for i in "$@"; do
  s=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 1; }
  bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo && bash $s/demo.sh >/tmp/demo0.log 2>&1); d0=$?
  git -C /repo apply $s/patch.diff || continue
  st=$(bash /tmp/stable.sh 2>&1 | tail -1)
  (cd /repo && bash $s/demo.sh >/tmp/demo1.log 2>&1); d1=$?
  c=$( cd /verif && DST_BUILD=/verif/build ./check.sh $p quick 2>&1 | tail -2 | tr '\n' ' ')
  git -C /repo checkout -- .
  echo "$i [$p] tests: $st | demo clean=$d0 patched=$d1 | $c"
done
bash /opt/vp/build.sh >/dev/null 2>&1
