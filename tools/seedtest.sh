#!/bin/bash
# seedtest.sh SLOT SEED [CHECK...] : confirms a planted change in private copies (own mount namespace)
# and runs the given checks (default: the one of meta.json) against it. NOTEST=1 skips the test suite.
slot=$1; seed=$2; shift 2
src=/verif/seeded/$seed; [ -d "$src" ] || src=$seed
M=/tmp/mnt$slot; mkdir -p $M/repo $M/verif $M/demo
rsync -a --delete /repo/ $M/repo/ 2>/dev/null || { rm -rf "$M/repo"; cp -a /repo $M/repo; }
rm -rf "$M/verif"; mkdir -p $M/verif; (cd /verif && tar c --exclude=.build --exclude=.scratch --exclude=replays --exclude=.git --exclude=seeded .) | tar x -C $M/verif
rm -rf "$M/demo"; mkdir $M/demo; cp -a $src/. $M/demo/
prop=${*:-$(python3 -c "import json;print(json.load(open('$src/meta.json'))['property'])")}
export M prop seed
unshare -Urm bash -c '
mount --bind $M/repo /repo && mount --bind $M/verif /verif || exit 9
cd /repo; git checkout -q -- . 
bash /opt/vp/build.sh >$M/build0.log 2>&1 || { echo "$seed BASEBUILD-FAILED"; exit 1; }
bash $M/demo/demo.sh >$M/demo0.log 2>&1; d0=$?
git apply $M/demo/patch.diff || { echo "$seed PATCH-FAILED"; exit 1; }
bash /opt/vp/build.sh >$M/build.log 2>&1 || { echo "$seed BUILD-FAILED"; tail -5 $M/build.log; exit 1; }
bash $M/demo/demo.sh >$M/demo1.log 2>&1; d1=$?
t=skipped
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $M/t.json >$M/test.log 2>&1; t=$(tail -1 $M/test.log); fi
echo "$seed demo-clean=$d0 demo-patched=$d1 tests: $t"
cd /verif
for p in $prop; do s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p >$M/check.$p.log 2>&1; r=$?; echo "   $seed check $p exit=$r $(( $(date +%s) - s ))s $(grep -m1 MISMATCH $M/check.$p.log | cut -c1-150)"; done
'
