#!/bin/bash
# Development tool: seed.sh ID : confirms a planted bug in a scratch copy (applies, stable tests pass, demo passes without and fails with it)
set -u
D=/verif/seeded/$1
T=$(mktemp -d /tmp/seedXXXX)
cp -a /repo $T/repo
mkdir $T/demo; cp $D/* $T/demo; rm -f $T/demo/*.diff $T/demo/meta.json
cd $T/repo
git status --short | head -3
export PYTHONDONTWRITEBYTECODE=1
sed -e "s#/opt/vp/reports#$T/reports#g" -e "s#=/repo\b#=$T/repo#;s#cd /repo\b#cd $T/repo#" /opt/vp/test.sh > $T/test.sh
PYTHONPATH=$T/repo bash $T/demo/demo.sh >$T/d0 2>&1; echo "demo clean: $?"
git apply $D/patch.diff || echo NOT APPLIED
PYTHONPATH=$T/repo bash $T/demo/demo.sh >$T/d1 2>&1; echo "demo patched: $?"; tail -2 $T/d1
bash $T/test.sh $T/o.json >$T/log 2>&1
python3 - $T/o.json <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
print('tests missing', [t for t in b['stable'] if t not in o['passed']])
PY
cd /; rm -rf "$T"
