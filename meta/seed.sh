#!/bin/bash
# seed.sh ID PROP [PROP...]   validates /verif/seeded/ID
ID=$1; shift
D=/verif/seeded/$ID
cp -a $D /tmp/seed_$ID; rm -f /tmp/seed_$ID/*.diff /tmp/seed_$ID/meta.json
cd /repo || exit 1
[ -z "$(git status --short)" ] || { echo "repo dirty"; exit 1; }
if [ -z "$SKIPDEMO" ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1
timeout 300 bash /tmp/seed_$ID/demo.sh >/tmp/seed_clean.log 2>&1; echo "demo clean rc=$?"; tail -2 /tmp/seed_clean.log
fi
git apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
if [ -z "$SKIPDEMO" ]; then
bash /tmp/base.sh 2>&1 | grep -E 'missing|error'
timeout 300 bash /tmp/seed_$ID/demo.sh >/tmp/seed_bug.log 2>&1; echo "demo bug rc=$?"; tail -2 /tmp/seed_bug.log
fi
cd /verif
for P in "$@"; do
  VERIF_SEED=${SEED:-1} timeout 900 python3 -m zv.check $P > /tmp/seed_$P.log 2>&1; echo "$P rc=$?"; grep -E 'VIOLATION|^P[0-9]' /tmp/seed_$P.log | cut -c1-300 | tail -3; head -5 /tmp/seed_$P.log | cut -c1-300
done
git -C /repo checkout -- .
rm -rf /tmp/seed_$ID
