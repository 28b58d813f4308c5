#!/bin/bash
# seedtest.sh ID...: does the planted bug build, pass the stable tests and fail its demo; do the checks see it? (in a private copy of /repo)
for id in "$@"; do
  S=/verif/seeded/$id; W=/tmp/sw.$id; rm -rf "$W"; cp -a /repo "$W"; rm -rf "$W/_build/reports"
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C "$W" apply "$S/patch.diff" || { echo "$id: patch does not apply"; continue; }
  cp -r "$S" /tmp/sd.$id; rm -f /tmp/sd.$id/*.diff /tmp/sd.$id/meta.json
  in_ns() { unshare -Urmn bash -c "ip link set lo up; mount --bind $W /repo; cd /repo; $1"; }
  in_ns "bash /opt/vp/test.sh /tmp/sw.$id.json" > /tmp/sw.$id.log 2>&1
  t=$(python3 -c "
import json; t=json.load(open('/tmp/sw.$id.json')); b=json.load(open('/opt/vp/BASELINE.json')); k=b.get('passed') or b.get('stable') or list(b.values())[0]
m=[x for x in k if x not in t['passed']]; print('tests', len(t['passed']), 'missing', m[:3])")
  in_ns "timeout 300 bash /tmp/sd.$id/demo.sh" > /tmp/sw.$id.demo 2>&1; d=$?
  git -C "$W" checkout -q -- .; in_ns "bash /opt/vp/build.sh; timeout 300 bash /tmp/sd.$id/demo.sh" > /tmp/sw.$id.demo0 2>&1; d0=$?
  git -C "$W" apply "$S/patch.diff"
  c="-"; [ -z "$NOCHECK" ] && { cd /verif; VX_REPO=$W timeout 900 python3 check.py $prop quick > /tmp/sw.$id.check 2>&1; c=$?; }
  echo "$id ($prop): $t; demo with patch exit $d, without $d0; check exit $c: $(grep -m1 VIOLATION /tmp/sw.$id.check | sed 's/.*(//' | cut -c1-150)"
  rm -rf "$W" "/tmp/sd.$id"
done
