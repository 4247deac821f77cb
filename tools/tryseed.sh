#!/bin/bash
# tryseed.sh ID [notest]: everything the final check asks of a planted bug, in a private mount namespace with a
# patched copy of /repo bound over /repo.  Result line in /tmp/seedres/ID.
ID=$1
mkdir -p /tmp/seedres
rm -rf /tmp/seedcopy-$ID; mkdir -p /tmp/seedcopy-$ID; cp -a /repo /tmp/seedcopy-$ID/repo; cp -a /verif /tmp/seedcopy-$ID/verif
export ID NOTEST=$2
unshare -m bash -c '
S=/tmp/seedcopy-$ID
mount --make-rprivate /
mount --bind $S/repo /repo; mount --bind $S/verif /verif
mkdir -p $S/tmp $S/rt; R=/tmp/seedres/$ID.log; exec 9>/tmp/seedres/$ID; exec >$R 2>&1
P=$(python3 -c "import json;print(json.load(open(\"/verif/seeded/$ID/meta.json\"))[\"property\"])")
cp -a /root $S/root 2>/dev/null; mount --bind $S/root /root
mount --bind $S/tmp /tmp
cd /repo; git checkout -q -- .
bash /verif/seeded/$ID/demo.sh; D0=$?
git apply /verif/seeded/$ID/patch.diff; A=$?
bash /opt/vp/build.sh; B=$?
bash /verif/seeded/$ID/demo.sh; D1=$?
T=skipped
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1
T=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); o=json.load(open(\"/tmp/out.json\"))
print(\"missing\",[t for t in b[\"stable\"] if t not in o[\"passed\"]])"); fi
cd /verif; t0=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $P > /tmp/chk 2>&1; C=$?
cat /tmp/chk
echo "$ID $P demo0=$D0 apply=$A build=$B demo1=$D1 tests=$T check=$C $(grep -c ^VIOLATION /tmp/chk) $(grep ^VIOLATION /tmp/chk | head -1 | grep -o no-failing-input-found) $(( $(date +%s)-t0 ))s" >&9
'
cat /tmp/seedres/$ID
rm -rf /tmp/seedcopy-$ID
