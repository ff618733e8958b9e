#!/bin/bash
# tools/trial.sh SEED [tests] [PXX ...]: try a planted bug in a scratch copy bind-mounted over /repo (private mount namespace).
# Prints the demo's exit codes without/with the patch, the unstable tests (with "tests"), and the exit code of each check.
id=$1; shift
src=/verif/seeded/$id
w=$(mktemp -d /tmp/tr_XXXX)
mkdir $w/demo $w/ev $w/rp
cp -a /repo $w/repo
cp -a $src/. $w/demo/; rm -f $w/demo/patch.diff $w/demo/meta.json
cat > $w/run.sh <<R
mount --bind $w/repo /repo; mount --bind $w/ev /verif/evidence; mount --bind $w/rp /verif/replays
cd /repo
timeout 300 bash $w/demo/demo.sh > $w/clean.out 2>&1; echo "$id demo clean: \$?"
git apply $src/patch.diff || { echo "$id patch does not apply"; exit 3; }
timeout 300 bash $w/demo/demo.sh > $w/bad.out 2>&1; rc=\$?; echo "$id demo patched: \$rc \$(tail -1 $w/bad.out | cut -c1-200)"
bash /opt/vp/build.sh > $w/build.out 2>&1 || { echo "$id BUILD FAILS"; tail -3 $w/build.out; }
for a in $@; do
  if [ \$a = tests ]; then
    bash /opt/vp/test.sh $w/t.json > $w/t.out 2>&1
    python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('$w/t.json'))
p=set(t.get('passed',t.get('pass',[])))
print('$id stable tests not passing:', sorted(b-p)[:8], len(b&p))
P
  else
    s=\$(date +%s); timeout 900 python3 /verif/check.py \$a > $w/c.out 2>&1; rc=\$?
    echo "$id check \$a: \$rc \$(( \$(date +%s)-s ))s \$(grep -c VIOLATION $w/c.out) \$(grep -m1 -A1 VIOLATION $w/c.out | cut -c1-220 | tr '\n' ' ')"
  fi
done
R
unshare -m bash $w/run.sh
rm -rf $w
