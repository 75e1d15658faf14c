#!/bin/bash
# seedtest.sh ID [notest]: checks one planted bug in a scratch copy of /repo.
ID=$1
S=/tmp/st/$ID; mkdir -p $S
V=/verif/seeded/$ID
cp -a /repo $S/repo
for f in env build test; do sed "s#/repo#$S/repo#g; s#/opt/vp/\(env\|build\|test\).sh#$S/\1.sh#g" /opt/vp/$f.sh > $S/$f.sh; done
cp -a $V $S/demo; rm -f $S/demo/*.diff $S/demo/meta.json
cd $S/repo
( bash $S/demo/demo.sh > $S/demo0.log 2>&1 ); r0=$?
git apply $V/patch.diff || { echo "$ID: patch does not apply"; rm -rf /tmp/st/$ID; exit 1; }
bash $S/build.sh > $S/build.log 2>&1; rb=$?
( bash $S/demo/demo.sh > $S/demo1.log 2>&1 ); r1=$?
nt=skipped
if [ "$2" != notest ]; then
  bash $S/test.sh $S/out.json > $S/test.log 2>&1
  nt=$(python3 - $S/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(sys.argv[1]))
p=set(o.get('passed',o.get('pass',[])))
m=[x for x in b if x not in p]
print(len(m), m[:5])
P
)
fi
mkdir -p $S/v/evidence; cp /verif/known_findings.txt $S/v/; /verif/bin/qkverif -verif $S/v -repo $S/repo -prop all > $S/check.log 2>&1
echo "$ID: demo clean=$r0 build=$rb demo patched=$r1 missing tests=$nt caught: $(grep -o 'VIOLATION property=[A-Z0-9]*' $S/check.log | sort -u | sed 's/.*=//' | tr '\n' ' ') (property $(python3 -c "import json;print(json.load(open('$V/meta.json'))['property'])"))"
cp $S/demo0.log /tmp/$ID.demo0; cp $S/demo1.log /tmp/$ID.demo1; cp $S/check.log /tmp/$ID.check
cd /; chmod -R u+w /tmp/st/$ID; rm -rf /tmp/st/$ID
