#!/bin/bash
# seedcheck.sh ID...: only the check of the planted bug's property, on a private copy of /repo with the bug
for id in "$@"; do
  S=/verif/seeded/$id; W=/tmp/sc.$id; rm -rf "/tmp/sc.$id"; git clone -q /repo "$W"; git -C "$W" apply "$S/patch.diff" || continue
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"); b=$SECONDS
  cd /verif; VX_REPO=$W timeout 900 python3 check.py $prop quick > /tmp/sc.$id.log 2>&1; c=$?
  echo "$id ($prop): exit $c, $((SECONDS-b)) s: $(grep -m1 VIOLATION /tmp/sc.$id.log | sed 's/.*(//' | cut -c1-170)"; rm -rf "/tmp/sc.$id"
done
