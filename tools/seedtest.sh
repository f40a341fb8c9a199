#!/bin/bash
# tools/seedtest.sh ID [CHECK...]   validates seeded/ID in a private copy of /repo (own mount
# namespace), then runs the given checks (default: its property) against the patched copy.
# SKIPTEST=1 leaves the repository's tests out.
id=$1; shift
S=/tmp/vps-$id
if [ -z "$IN_NS" ]; then
  rm -rf "/tmp/vps-$id"; mkdir -p $S/reports $S/evidence $S/demo
  cp -a /repo $S/repo
  IN_NS=1 unshare -m bash "$0" "$id" "$@" > $S/log 2>&1
  grep -a "^##" $S/log
  rm -rf "/tmp/vps-$id/repo"
  exit
fi
mount --make-rprivate /
mount --bind $S/repo /repo; mount --bind $S/reports /opt/vp/reports; mount --bind $S/evidence /verif/evidence
D=/verif/seeded/$id
find $D -maxdepth 1 -type f ! -name '*.diff' ! -name meta.json -exec cp -p {} $S/demo/ \;
cd /repo
timeout 300 bash $S/demo/demo.sh; echo "## $id demo unpatched rc=$?"
git apply $D/patch.diff || { echo "## $id APPLY FAILED"; exit; }
if [ -n "$SKIPTEST" ]; then bash /opt/vp/build.sh > $S/build.log 2>&1 || echo "## $id BUILD FAILED"
else
  bash /opt/vp/test.sh $S/out.json > $S/test.log 2>&1
  python3 - $S/out.json $id <<'P'
import json,sys
o=json.load(open(sys.argv[1]));b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('stable') or b.get('passed') or b
p=set(map(str,o['passed']));miss=[t for t in map(str,st) if t not in p]
print('##',sys.argv[2],'tests passed',len(p),'missing',len(miss),miss[:3])
P
fi
timeout 300 bash $S/demo/demo.sh; echo "## $id demo patched rc=$?"
cd /verif
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
for c in "$@"; do node run.mjs $c quick > $S/check.$c 2>&1; echo "## $id check $c rc=$? $(grep -a ^VIOLATION $S/check.$c)"; done
