#!/bin/bash
# seedcheck.sh [-t] ID...: demo on the clean scratch copy and with the patch (-t: stable tests as well)
T=0; [ "$1" = -t ] && { T=1; shift; }
R=/tmp/sc/repo
for id in "$@"; do
  D=/verif/seeded/$id; W=$(mktemp -d); cp -r $D/. $W/; rm -f $W/*.diff $W/meta.json
  git -C $R checkout -q -- .; bash /tmp/sc/build.sh >/tmp/sc/b0.log 2>&1 || echo "clean build failed"
  (cd $R && timeout 300 bash $W/demo.sh) >/tmp/sc/$id.clean 2>&1; a=$?
  git -C $R apply $D/patch.diff || { echo "$id: patch fails"; continue; }
  bash /tmp/sc/build.sh >/tmp/sc/$id.build 2>&1 || { echo "$id: build fails"; }
  (cd $R && timeout 300 bash $W/demo.sh) >/tmp/sc/$id.bug 2>&1; b=$?
  r=""
  if [ $T = 1 ]; then bash /tmp/sc/test.sh /tmp/sc/$id.json >/tmp/sc/$id.test 2>&1
    r=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/sc/$id.json'))['passed'])
print('missing:',sorted(b-p))
P
); fi
  git -C $R checkout -q -- .
  echo "$id clean=$a bug=$b $r"; rm -rf "$W"
done
