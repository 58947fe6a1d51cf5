#!/bin/bash
# seedtest.sh ID...: confirms planted changes in scratch copies (build, stable tests, demo with and without)
set -u
clean=/tmp/sc_clean.$$; rm -rf $clean; mkdir -p $clean; cp -a /repo $clean/repo
for id in "$@"; do
  s=/tmp/sc_$id; rm -rf $s; mkdir -p $s/opt; cp -a /repo $s/repo
  for f in /opt/vp/*; do [ -f $f ] && sed "s#/repo#$s/repo#g; s#/opt/vp#$s/opt#g" $f > $s/opt/$(basename $f); done
  d=/verif/seeded/$id
  git -C $s/repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  ( cd $clean/repo && timeout -s KILL 300 bash $d/demo.sh ) > $s/demo_clean.log 2>&1; a=$?
  bash $s/opt/build.sh > $s/build.log 2>&1 || { echo "$id: build fails"; continue; }
  ( cd $s/repo && timeout -s KILL 300 bash $d/demo.sh ) > $s/demo.log 2>&1; b=$?
  t=skipped
  if [ -z "${NOTEST:-}" ]; then
    bash $s/opt/test.sh $s/t.json > $s/test.log 2>&1
    t=$(python3 - $s/t.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open(sys.argv[1])); m=b-set(t['passed']); print(len(m), sorted(m)[:3])
P
)
  fi
  echo "$id: clean=$a (want 0) patched=$b (want !=0) missing tests: $t"; tail -3 $s/demo.log
  if [ -z "${KEEP:-}" ]; then rm -rf $s; fi
done
rm -rf $clean
