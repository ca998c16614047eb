#!/bin/sh
# tools/tests.sh: the repository's tests, on $UDAPI_REPO
R=${UDAPI_REPO:-/repo}
T=$(mktemp -d)
sed "s#cd /repo#cd $R#; s#/repo/bin#$R/bin#; s#PYTHONPATH=/repo#PYTHONPATH=$R#" /opt/vp/test.sh > $T/test.sh
bash $T/test.sh $T/t.json > $T/log 2>&1
python3 - $T/t.json <<'PY'
import json, sys
good = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
print('failing:', sorted(good - set(json.load(open(sys.argv[1]))['passed'])))
PY
rm -rf "$T"
