#!/bin/bash
# seed.sh <id>: validate a planted bug in a scratch copy: applies, tests pass, demo 0 / nonzero, check catches it
id=$1; S=/verif/seeded/$id
W=/tmp/seedwork.$id
rm -rf "$W"; cp -a /repo "$W"
cd "$W" && git checkout -q -- . 
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
run_demo() { ( cd "$W" && PYTHONPATH="$W" bash "$S/demo.sh" >/tmp/seed.$id.demo 2>&1; echo $? ); }
a=$(run_demo)
git apply "$S/patch.diff" || { echo "$id PATCH FAILS"; rm -rf "$W"; exit 1; }
b=$(run_demo)
VERIF_REPO="$W" python3 /verif/check.py $PROP quick > /tmp/seed.$id.chk 2>&1; c=$?
if [ "$2" != "notest" ]; then
 ( cd "$W" && PYTHONPATH="$W:/opt/vp/plugins" OMP_NUM_THREADS=1 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg timeout 600 /opt/venv/bin/python -m pytest -q --no-header -p no:cacheprovider -p vp_seed --ignore=tests/test_examples.py tests > /tmp/seed.$id.test 2>&1 ); t=$(tail -1 /tmp/seed.$id.test)
fi
echo "$id $PROP demo clean=$a bug=$b check=$c tests: $t | $(grep -m1 'rule:' /tmp/seed.$id.chk)"
rm -rf "$W"
