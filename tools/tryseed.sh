#!/bin/bash
# tools/tryseed.sh <id>...: does the planted bug build, pass the tests, fail its demo, and get caught?
cd /repo || exit 1
for id in "$@"; do
  s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  [ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
  t=$(mktemp -d); cp "$s"/* -r "$t"; rm -f "$t/patch.diff" "$t/meta.json"
  bash "$t/demo.sh" >/tmp/try.$id.clean 2>&1; clean=$?
  git apply "$s/patch.diff" || { echo "$id: patch does not apply"; continue; }
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/build.sh >/tmp/try.$id.build 2>&1; b=$?
    tests=$(bash /opt/vp/test.sh /tmp/try.json 2>/dev/null | tail -1)
  fi
  bash "$t/demo.sh" >/tmp/try.$id.bug 2>&1; bug=$?
  timeout 900 python3 /verif/check.py $p quick >/tmp/try.$id.check 2>&1; c=$?
  git checkout -q -- .
  rm -rf "$t"
  echo "$id ($p): build $b, $tests, demo clean $clean bug $bug, check $c $(grep -m1 -v VIOLATION /tmp/try.$id.check | cut -c1-110)"
done
[ -n "$NOTEST" ] || bash /opt/vp/build.sh >/dev/null 2>&1
