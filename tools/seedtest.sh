#!/bin/bash
# seedtest.sh SEED [tier:]CHECK... : confirms a planted bug in private copies of /repo and /verif
# (bind-mounted over the originals in a user+mount namespace of its own) and runs checks against it.
id=$1; shift
D=/tmp/seedtest.$id.$$
mkdir -p $D
cp -a /repo $D/repo; cp -a /verif $D/verif; mkdir $D/demo
cp -a /verif/seeded/$id/. $D/demo/; rm -f $D/demo/*.diff $D/demo/meta.json
cp /verif/seeded/$id/patch.diff $D/p.diff
cat > $D/run.sh <<EOF
mount --bind $D/repo /repo && mount --bind $D/verif /verif || exit 9
cd /repo
git apply --check $D/p.diff || { echo "$id: patch does not apply"; exit 1; }
if [ -z "$SKIPDEMO" ]; then
bash /opt/vp/build.sh > $D/b0.log 2>&1 || echo "$id: clean build failed"
bash $D/demo/demo.sh > $D/d0.log 2>&1; echo "$id: demo on clean tree rc=\$?"
git apply $D/p.diff
bash /opt/vp/test.sh $D/t.json > $D/b1.log 2>&1
python3 - <<PY
import json
b=set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
t=json.load(open('$D/t.json'));p=set(t['passed'])
print("$id: tests passed", len(p), "missing", sorted(b-p)[:5])
PY
timeout 300 bash $D/demo/demo.sh > $D/d1.log 2>&1; echo "$id: demo with bug rc=\$?"; tail -3 $D/d1.log
else git apply $D/p.diff; fi
cd /verif
for c in "\$@"; do
 t=quick; case \$c in thorough:*) t=thorough; c=\${c#thorough:};; esac
 timeout 900 ./run.sh \$c \$t > $D/c.log 2>&1; echo "$id: check \$c \$t rc=\$?"; grep -m3 VIOLATION -A1 $D/c.log | cut -c1-250
done
EOF
unshare -Urm bash $D/run.sh "$@"
rm -rf "$D"
