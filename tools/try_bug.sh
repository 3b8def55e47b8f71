#!/bin/bash
# try_bug.sh ID...: does the planted bug count, and does the property's check catch it? (developer loop; edits /repo and undoes it)
cd /verif
for id in "$@"; do
 d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 [ -n "$(git -C /repo status --short)" ] && { echo "repo not clean"; exit 1; }
 [ -z "$NODEMO" ] && { (cd /repo; bash $d/demo.sh >/tmp/demo-$id.0 2>&1); r0=$?; }
 git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
 [ -z "$NODEMO" ] && { (cd /repo; bash $d/demo.sh >/tmp/demo-$id.1 2>&1); r1=$?; t=$(bash tools/rt.sh | tail -1); }
 s=$(date +%s); bin/check $prop > /tmp/bug-$id.log 2>&1; c=$?
 git -C /repo checkout -- .
 echo "== $id ($prop): demo clean=$r0 bug=$r1 tests: $t; check rc=$c $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' /tmp/bug-$id.log) violations: $(grep -m1 VIOLATION -A2 /tmp/bug-$id.log | cut -c1-300 | tr '\n' ' ')"
 [ -z "$NODEMO" ] && { [ "$r0" != 0 ] || [ "$r1" = 0 ]; } && tail -3 /tmp/demo-$id.1
done
