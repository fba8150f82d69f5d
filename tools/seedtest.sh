#!/bin/bash
# tools/seedtest.sh SEED [notests]: confirms a planted bug in a private mount namespace with a scratch copy of /repo on top of /repo
id=$1; opt=$2
[ -d /verif/seeded/$id ] || { echo "no seed $id"; exit 2; }
S=$(mktemp -d /tmp/seedtest_${id}_XXXX)
cp -a /repo $S/repo; cp -a /opt/vp $S/vp; mkdir $S/verif; cp -a /verif/. $S/verif/
cat > $S/in.sh <<'I'
set -u
id=$1; S=$2; opt=$3
mount --bind $S/repo /repo && mount --bind $S/vp /opt/vp && mount --bind $S/verif /verif || exit 9
cp -a /verif/seeded/$id $S/seed; rm -f $S/seed/patch.diff $S/seed/meta.json
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cd /repo; git checkout -q -- .
bash /opt/vp/build.sh > $S/b0.log 2>&1; b0=$?
( cd /repo; timeout 300 bash $S/seed/demo.sh > $S/d0.log 2>&1 ); d0=$?
git apply /verif/seeded/$id/patch.diff || { echo "$id patch does not apply"; exit 1; }
bash /opt/vp/build.sh > $S/b1.log 2>&1; b1=$?
( cd /repo; timeout 300 bash $S/seed/demo.sh > $S/d1.log 2>&1 ); d1=$?
t=skipped
if [ "$opt" != notests ]; then
bash /opt/vp/test.sh $S/t.json > $S/t.log 2>&1
t=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('$S/t.json'))
print('lost:'+','.join(sorted(b-set(r['passed']))) if b-set(r['passed']) else 'pass')
P
)
fi
cd /verif; VERIF_SEED=1 VERIF_TIER=quick ./run $prop --tier quick > $S/c.log 2>&1; c=$?
v=$(grep -c "^VIOLATION property=$prop" $S/c.log)
echo "$id prop=$prop build=$b0/$b1 demo=$d0/$d1 tests=$t check=$c violation=$v  $(grep -o '^  \[[^]]*\] x[0-9]*' $S/c.log | head -3 | tr '\n' ' ')"
[ $d0 != 0 ] && tail -5 $S/d0.log
[ $b1 != 0 ] && tail -5 $S/b1.log
[ $d1 = 0 ] && tail -5 $S/d1.log
[ $c != 1 ] && tail -4 $S/c.log
I
unshare -Urm bash $S/in.sh $id $S "$opt"
case $S in /tmp/seedtest_*) rm -rf "$S";; esac
