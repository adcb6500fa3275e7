#!/bin/bash
# valid.sh ID...: does the planted bug apply, build, pass the tests; does its
# demonstration tell the trees apart?  Works in /repo and undoes everything.
for i in "$@"; do
  s=/verif/seeded/$i
  cd /repo || exit 1
  [ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo not clean"; exit 1; }
  bash /opt/vp/build.sh >/tmp/seed.log 2>&1
  bash $s/demo.sh >/tmp/seed.clean 2>&1; clean=$?
  if ! git apply $s/patch.diff; then echo "$i: PATCH DOES NOT APPLY"; continue; fi
  bash /opt/vp/test.sh /tmp/seed.json >>/tmp/seed.log 2>&1
  res=$(python3 - <<'P'
import json
d=json.load(open('/tmp/seed.json')); b=json.load(open('/opt/vp/BASELINE.json'))
st=b if isinstance(b,list) else b['stable']
miss=[t for t in st if t not in d['passed']]
print("tests ok" if not miss else "TESTS FAIL %s" % miss[:3])
P
)
  bash $s/demo.sh >/tmp/seed.bug 2>&1; bug=$?
  git checkout -q -- .
  ok=OK; [ $clean = 0 ] && [ $bug != 0 ] && [ $bug != 3 ] && [ "$res" = "tests ok" ] || ok=BAD
  echo "$i: $ok demo clean=$clean bug=$bug; $res"
  [ $ok = OK ] || { echo "-- clean:"; tail -5 /tmp/seed.clean; echo "-- bug:"; tail -5 /tmp/seed.bug; }
done
cd /repo && bash /opt/vp/build.sh >/tmp/seed.log 2>&1
