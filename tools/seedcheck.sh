#!/bin/bash
# seedcheck.sh ID [PROPERTY...]: runs the checks (default: the planted change's own property) on a scratch copy with the change
id=$1; shift; d=/verif/seeded/$id
props=${*:-$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")}
w=/tmp/sk_$id; rm -rf $w; mkdir -p $w; git clone -q --no-hardlinks /repo $w/repo; git -C $w/repo apply $d/patch.diff || exit 9
for p in $props; do
  VP_REPO=$w/repo VP_BUILD=$w/build VP_EVIDENCE=$w/ev timeout -s KILL 900 python3 /verif/check.py $p ${TIER:-quick} > $w/log.$p 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' $w/log.$p)"; head -3 $w/log.$p | cut -c1-${CUT:-400}
done
[ -z "${KEEP:-}" ] && rm -rf $w
