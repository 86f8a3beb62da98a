#!/bin/bash
# seed.sh ID [check-args]: in a scratch copy of /repo: build, stable tests and demo with and
# without the planted bug, then the check of its property (VERIF_REPO).
id=$1; s=/verif/seeded/$id; w=/tmp/seed-$id
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
[ -n "$NOBUILD" ] || {
rm -rf "$w"; cp -a /repo "$w"
sed "s#^repo=/repo#repo=$w#" /opt/vp/build.sh > /tmp/seed-$id.build.sh
sed "s#/repo/_build#$w/_build#" /opt/vp/run_tests.py > /tmp/seed-$id.tests.py
bash /tmp/seed-$id.build.sh > /tmp/seed-$id.log 2>&1 || echo "clean build failed"
(cd $w && timeout 300 bash $s/demo.sh > /tmp/seed-$id.demo0 2>&1); d0=$?
git -C $w apply $s/patch.diff || { echo "patch does not apply"; exit 1; }
bash /tmp/seed-$id.build.sh >> /tmp/seed-$id.log 2>&1 || echo "$id: patched build FAILED"
(cd $w && timeout 300 bash $s/demo.sh > /tmp/seed-$id.demo1 2>&1); d1=$?
if [ -n "$NOTEST" ]; then t=skipped; else
python3 /tmp/seed-$id.tests.py $w/_build/results > /tmp/seed-$id.t 2>&1
t=$(python3 - $w <<'P'
import json,sys
st=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok={l.split(' ',1)[1].strip() for l in open(sys.argv[1]+'/_build/results/results.txt') if l.startswith('PASS')}
bad=[x for x in st if x not in ok]; print('pass' if not bad else 'FAIL '+' '.join(bad[:5]))
P
); fi
echo "$id ($prop): demo clean=$d0 patched=$d1 tests=$t"
}
(cd /verif && VERIF_REPO=$w timeout 900 python3 check.py $prop --tier quick > /tmp/seed-$id.check 2>&1); rc=$?
echo "$id ($prop): check rc=$rc: $(grep -a 'what:\|VIOLATION' /tmp/seed-$id.check | cut -c1-260 | tr '\n' ' ')"
rm -rf "$w" /tmp/seed-$id.build.sh /tmp/seed-$id.tests.py
