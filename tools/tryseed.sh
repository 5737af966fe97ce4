#!/bin/bash
# tools/tryseed.sh SEED [CHECK...]: confirm a planted bug (builds, keeps the stable tests passing, its demonstration
# fails with it and passes without it), then run the checks of its property (or the given ones) against it.
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"); shift; C=${*:-$P}
cd /repo || exit 1
[ -z "$(git status --short)" ] || { echo "/repo not clean"; exit 1; }
git apply "$S/patch.diff" || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
if bash /opt/vp/build.sh >/tmp/vf-b.log 2>&1; then echo built; else echo "DOES NOT BUILD"; tail -5 /tmp/vf-b.log; fi
bash /opt/vp/test.sh /tmp/vf-t.json >/tmp/vf-tt.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/vf-t.json'))['passed'])
print('tests:', len(b&p), 'of', len(b), 'missing', sorted(b-p)[:5])
P
D=$(mktemp -d); cp "$S"/* $D/; rm -f $D/*.diff $D/meta.json
(cd /repo; timeout 300 bash $D/demo.sh >/tmp/vf-d.log 2>&1); echo "demo with the bug: rc $? (wanted nonzero): $(tail -1 /tmp/vf-d.log | cut -c1-150)"
for c in $C; do (cd /verif; timeout 900 env VERIF_SEED=1 VERIF_TIER=quick python3 check.py $c > /tmp/vf-c.log 2>&1; echo "check $c: rc $? $(grep -c '^VIOLATION' /tmp/vf-c.log) violations: $(grep -m1 '^VIOLATION' /tmp/vf-c.log | cut -c1-230) $(grep BROKEN /tmp/vf-c.log)"); done
git checkout -q -- .; trap - EXIT
bash /opt/vp/build.sh >/tmp/vf-b.log 2>&1
(cd /repo; timeout 300 bash $D/demo.sh >/tmp/vf-d.log 2>&1); echo "demo without: rc $? (wanted 0) $(tail -1 /tmp/vf-d.log | cut -c1-150)"
rm -rf "$D"
