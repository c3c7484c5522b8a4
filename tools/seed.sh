#!/bin/bash
# seed.sh ID [PROP...]: /repo's working tree carries a planted bug (or seeded/ID/patch.diff exists): record it, confirm it, run checks on it, undo it.
id=$1; shift
S=/verif/seeded/$id
mkdir -p $S
cd /repo
if [ -n "$(git status --porcelain)" ]; then git diff > $S/patch.diff; else git apply $S/patch.diff || exit 1; fi
[ -f $S/demo.sh ] || cp /verif/tools/demo.sh $S/demo.sh
[ -n "$NOTEST" ] || { bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1 || echo "BUILD FAILED"; bash /opt/vp/test.sh /tmp/seed-o.json > /tmp/seed-t.log 2>&1; tail -1 /tmp/seed-t.log; grep -E "^error" /tmp/seed-build.log | head; }
[ -n "$NODEMO" ] || { (cd /repo; bash $S/demo.sh) > /tmp/seed-demo.log 2>&1; echo "demo with patch: $? (want nonzero)"; tail -2 /tmp/seed-demo.log; }
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for p in "$@"; do
  (cd /verif; python3 check.py $p) > /tmp/seed-$id-$p.log 2>&1; echo "check $p: exit $?"; grep -E "PROBLEM|^  |VIOLATION" /tmp/seed-$id-$p.log | cut -c1-220 | head -${L:-6}
done
cd /repo; git checkout -q -- .
[ -n "$NODEMO" ] || { (cd /repo; bash $S/demo.sh) > /tmp/seed-demo0.log 2>&1; echo "demo without patch: $? (want 0)"; }
