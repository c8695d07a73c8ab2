#!/bin/bash
# try_bug.sh <id> [check ids...]: is the planted change valid (builds, tests pass, demo), and which checks report it
B=/verif/seeded/$1; ID=$1; shift
P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
CH="${*:-$P}"
git -C /repo diff --quiet || { echo "repo dirty"; exit 9; }
bash /opt/vp/build.sh >/tmp/tb.log 2>&1
( cd /repo; timeout 300 bash $B/demo.sh >/tmp/tb.demo0 2>&1 ); d0=$?
git -C /repo apply $B/patch.diff || { echo "$ID: patch does not apply"; exit 8; }
trap 'git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/tb.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.test 2>&1
t=$(python3 /tmp/stable.py /tmp/tb.json | tail -1)
( cd /repo; timeout 300 bash $B/demo.sh >/tmp/tb.demo1 2>&1 ); d1=$?
echo "$ID: build=$b tests=$t demo unchanged=$d0 patched=$d1"
for c in $CH; do ( cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/run.py $c >/tmp/tb.$c 2>&1; echo "   $c exit $? $(grep -c '^VIOLATION' /tmp/tb.$c) $(grep -m1 -E '^  [^u]' /tmp/tb.$c | cut -c1-220)" ); done
