#!/bin/bash
# tryseed.sh <id>...: demo on the unchanged tree of a scratch copy, then with the patch, and the property's check
V=$(cd "$(dirname "$0")/.." && pwd)
W=/tmp/tryseed
mkdir -p $W
for id in "$@"; do
  /bin/rm -rf /tmp/tryseed/repo
  mkdir -p $W/repo && tar -C /repo --exclude=./target --exclude=./.git -cf - . | tar -C $W/repo -xf -
  cd $W/repo
  bash $V/seeded/$id/demo.sh > $W/clean.log 2>&1; a=$?
  patch -s -p1 < $V/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $V/seeded/$id/demo.sh > $W/bug.log 2>&1; b=$?
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  VP_REPO=$W/repo VP_CACHE=$W/cache VP_EVIDENCE=$W/ev python3 $V/run.py $p > $W/check.log 2>&1; c=$?
  echo "$id ($p): demo clean=$a patched=$b check=$c  $(grep -m1 '^      ' $W/check.log)"
  [ $a = 0 ] || tail -3 $W/clean.log
  [ $b = 0 ] && echo "   NOT BROKEN"
  tail -2 $W/bug.log | sed 's/^/   /'
done
/bin/rm -rf /tmp/tryseed/repo
