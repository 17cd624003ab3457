#!/bin/bash
# mkbug.sh ID : /tmp/wt (cp -a of /repo) has the change; /verif/seeded/ID has demo.sh + files + meta.json.
# Confirms: builds, stable tests pass, demo 0 without and nonzero with the change; writes patch.diff; runs the property's check.
ID=$1; S=/verif/seeded/$ID
git -C /tmp/wt diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "no change"; exit 1; }
git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
T=$(mktemp -d /tmp/demo.XXXX); cp -r $S/* $T/; rm -f $T/patch.diff $T/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1
( cd /repo && timeout 300 bash $T/demo.sh ) > $S/.clean.log 2>&1; a=$?
git -C /repo apply $S/patch.diff || { echo "does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; rm -f $S/.*.log' EXIT
bash /opt/vp/build.sh > $S/.build.log 2>&1 || { echo BUILD FAILS; tail -20 $S/.build.log; exit 1; }
bash /opt/vp/test.sh $T/o.json > /dev/null 2>&1
n=$(python3 -c "import json;print(len(json.load(open('$T/o.json'))['passed']))")
( cd /repo && timeout 300 bash $T/demo.sh ) > $S/.bug.log 2>&1; b=$?
echo "$ID: demo clean=$a bug=$b tests=$n"
[ $a = 0 ] || tail -5 $S/.clean.log
[ $b != 0 ] || tail -5 $S/.bug.log
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif && timeout 900 python3 run.py $P > $T/check.log 2>&1; c=$?
echo "check $P exit $c: $(grep -a -m2 '^----' $T/check.log | cut -c1-220 | tr '\n' ' ')"
rm -rf $T
git -C /tmp/wt checkout -q -- .
