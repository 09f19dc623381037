#!/bin/bash
# seedcheck.sh ID [nocheck]: confirms a planted change in a private copy of /repo bound over /repo, then runs the property's check against it.
# WORK=/tmp/seed1 selects the scratch folder.
set -u
ID=$1; MODE=${2:-check}; W=${WORK:-/tmp/seedw}; S=/verif/seeded/$ID
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p $W
rsync -a --delete /repo/ $W/repo/
( cd $W/repo && git checkout -q -- . )
unshare -m bash -c "
mount --bind $W/repo /repo || exit 9
cd /repo
if [ ! -e $W/orig.$(git -C /repo rev-parse HEAD) ]; then bash /opt/vp/build.sh >/dev/null 2>&1; fi
bash $S/demo.sh > $W/demo0.txt 2>&1; d0=\$?
git apply $S/patch.diff || { echo 'PATCH DOES NOT APPLY'; exit 1; }
if ! bash /opt/vp/build.sh > $W/build.txt 2>&1; then echo BUILD FAILS; grep -m3 error $W/build.txt; exit 1; fi
bash /opt/vp/test.sh $W/test.json > $W/test.txt 2>&1
miss=\$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/test.json'))
print(sorted(set(b['stable'])-set(t['passed'])))
P
)
bash $S/demo.sh > $W/demo1.txt 2>&1; d1=\$?
echo \"$ID ($PROP): demo unchanged=\$d0 patched=\$d1 tests missing=\$miss | \$(grep -m1 FAILED $W/demo1.txt)\"
[ \$d0 = 0 ] || tail -5 $W/demo0.txt
if [ $MODE = check ]; then
  cd /verif && TP_BUILD=$W/build VERIF_SEED=1 VERIF_TIER=quick TP_EVIDENCE=$W python3 tools/check.py $PROP > $W/check.txt 2>&1; rc=\$?
  echo \"   check rc=\$rc: \$(grep -m1 -A1 VIOLATION $W/check.txt | cut -c1-250 | tr '\n' ' ')\"
  [ \$rc = 1 ] || tail -3 $W/check.txt
fi
"
