#!/bin/bash
# plant.sh ID: confirm a planted bug (patch applies, builds, stable tests pass, demo flips) and run its check
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "base build fails"; exit 9; }
t=$(mktemp -d /tmp/demo.XXXX); cp -r $d/. $t; rm -f $t/*.diff $t/meta.json
timeout 300 bash $t/demo.sh >/tmp/demo.base 2>&1; b=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 9; }
bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.log 2>&1; n=$(python3 -c "import json;d=json.load(open('/tmp/plant.json'));print(len(d['passed']),len(d['failed']))")
timeout 300 bash $t/demo.sh >/tmp/demo.bug 2>&1; g=$?
cd /verif; s=$(date +%s); timeout 900 python3 checks/run.py $prop ${2:-quick} >/tmp/plant.chk 2>&1; c=$?; e=$(date +%s)
git -C /repo checkout -q -- .
echo "$id [$prop] demo base=$b bug=$g tests=$n check=$c ($((e-s))s)"
grep -m3 -E "rule|VIOL|ERROR|Error" /tmp/plant.chk | cut -c1-260
rm -rf "$t"
