#!/bin/bash
# tools/seed.sh start: a scratch copy of /repo's HEAD in /tmp/sw/repo, to edit.
# tools/seed.sh NAME PROPERTY "needs" "what it breaks": turns the edit in the copy into
# /verif/seeded/NAME, with the image from the replay the property's check finds as demonstration
# (or the images already in /verif/seeded/NAME). Restores the copy. /repo is left alone.
set -u
sw=/tmp/sw; repo=$sw/repo
. /opt/vp/env.sh
if [ "$1" = start ]; then
  mkdir -p $sw
  [ -d $repo ] || git clone -q /repo $repo
  git -C $repo fetch -q origin; git -C $repo checkout -q -f --detach "$(git -C /repo rev-parse HEAD)"
  rsync -a --exclude .git /repo/ $repo/ 2>/dev/null || cp -a /repo/. $repo/
  git -C $repo checkout -q -- . ; git -C $repo status --short | head
  exit
fi
n=$1; p=$2; d=/verif/seeded/$n
mkdir -p "$d"
git -C $repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change in $repo"; exit 1; }
trap 'git -C $repo checkout -q -- .' EXIT
# changed lines must be of the original repository
git -C $repo diff -U0 | python3 -c "
import re,subprocess,sys
f=None
for l in sys.stdin:
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m:
        a,c=int(m[1]),int(m[2] or 1)
        if c==0: continue
        o=subprocess.run(['git','-C','$repo','blame','-s','-L',f'{a},{a+c-1}','HEAD','--',f],capture_output=True,text=True).stdout
        for x in o.splitlines():
            h=x.split()[0].lstrip('^')
            if subprocess.run(['git','-C','$repo','merge-base','--is-ancestor',h,'2c18e25']).returncode: print('NOT ORIGINAL:',x)
"
(cd $repo && go build ./...) || { echo BUILD FAILS; exit 1; }
sed "s#cd /repo#cd $repo#; s#LOGS=.*#LOGS=$sw/logs#" /opt/vp/test.sh > $sw/test.sh
bash $sw/test.sh $sw/seed.json >$sw/test.out 2>&1; tail -1 $sw/test.out
python3 - <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); got=json.load(open('/tmp/sw/seed.json'))
def names(d):
    for k in ('passed','stable','tests','pass'):
        if k in d: return set(d[k])
    return set()
miss=names(base)-names(got)
print('stable tests failing:',len(miss),sorted(miss)[:5])
sys.exit(bool(miss))
P
[ $? = 0 ] || { rm -rf $d; exit 1; }
rm -rf $sw/verif; mkdir $sw/verif
cp -a /verif/harness /verif/check.sh /verif/known_findings.txt $sw/verif/
sed -i "s#=> /repo#=> $repo#" $sw/verif/harness/go.mod
start=$(date +%s)
VERIF_SEED=${VERIF_SEED:-1} $sw/verif/check.sh $p quick > $sw/seed.out 2>&1; rc=$?
tail -3 $sw/seed.out | cut -c1-600; echo "check rc=$rc, $(($(date +%s)-start)) s"
if ! ls "$d"/*.jxl "$d"/own.go >/dev/null 2>&1; then
  r=$(sed -n 's/^VIOLATION .*replay=//p' $sw/seed.out | head -1)
  python3 - "$r" "$d" <<'P'
import json,sys,base64
r=json.load(open(sys.argv[1]))
for k,v in r['attach'].items():
    if k=='image.jxl' or (k.endswith('.jxl') and 'image.jxl' not in r['attach']): open(sys.argv[2]+'/'+k,'wb').write(base64.b64decode(v))
P
fi
[ -e "$d/main.go" ] || cp /verif/tools/demo/main.go "$d/"
[ -e "$d/demo.sh" ] || cp /verif/tools/demo/demo.sh "$d/"
python3 - "$d" "$p" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
git -C $repo checkout -q -- .
if grep -q record "$d/main.go"; then (cd $repo && bash "$d/demo.sh" -record); fi
(cd $repo && bash "$d/demo.sh"); echo "demo on clean tree: $?"
git -C $repo apply "$d/patch.diff"
(cd $repo && bash "$d/demo.sh"); echo "demo with the patch: $?"
git -C $repo checkout -q -- .
ls "$d"
