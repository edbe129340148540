#!/bin/bash
# trybug.sh ID...   tries planted bugs in private copies (mount namespace): stable tests, demonstration, check.
# Results: /tmp/trybug/ID.result
mkdir -p /tmp/trybug /tmp/wt/repo /tmp/wt/vp /tmp/wt/verif
rsync -a --delete /repo/ /tmp/wt/repo/ --exclude target; [ -d /tmp/wt/repo/target ] || cp -a /repo/target /tmp/wt/repo/
git -C /tmp/wt/repo checkout -q -- . 
rsync -a --delete /opt/vp/ /tmp/wt/vp/
rsync -a --delete --exclude target --exclude .git /verif/ /tmp/wt/verif/
cat > /tmp/wt/in.sh <<'I'
mount --bind /tmp/wt/repo /repo; mount --bind /tmp/wt/vp /opt/vp; mount --bind /tmp/wt/verif /verif
id=$1; s=/tmp/trybug/seed.$id; rm -rf "/tmp/trybug/seed.$id"; cp -r /verif/seeded/$id "$s"
cd /repo; git apply $s/patch.diff || { echo "$id: DOES NOT APPLY"; exit; }
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh > /tmp/trybug/$id.build 2>&1 && bash /opt/vp/test.sh /tmp/trybug/$id.json > /tmp/trybug/$id.test 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
try: t=set(json.load(open('/tmp/trybug/$id.json'))['passed']); m=[x for x in b if x not in t]
except Exception as e: m=['no build',str(e)]
print('$id: stable tests', 'ok' if not m else 'FAILED %s'%m[:5])
P
fi
if [ -z "$NODEMO" ]; then
timeout 300 bash $s/demo.sh > /tmp/trybug/$id.demo 2>&1; echo "$id: demo with patch: $? (wants nonzero) $(tail -1 /tmp/trybug/$id.demo | cut -c1-150)"
git apply -R $s/patch.diff
timeout 300 bash $s/demo.sh > /tmp/trybug/$id.demo0 2>&1; echo "$id: demo without: $? (wants 0) $(tail -1 /tmp/trybug/$id.demo0| cut -c1-150)"
git apply $s/patch.diff
fi
(cd /verif; timeout 900 ./run.sh $prop > /tmp/trybug/$id.check 2>&1; echo "$id: check $prop: $? (wants 1) $(grep -m1 -A1 VIOLATION /tmp/trybug/$id.check | tr '\n' ' ' | cut -c1-250)")
git checkout -q -- .
I
for id in "$@"; do unshare -m bash /tmp/wt/in.sh $id 2>&1 | tee /tmp/trybug/$id.result; done
