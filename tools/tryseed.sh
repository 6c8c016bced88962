#!/bin/bash
# tryseed.sh ID...: demo on a clean copy, demo, build and stable tests with the patch
. /opt/vp/env.sh
for id in "$@"; do
  d=/verif/seeded/$id w=/tmp/seedwt.$id
  rm -rf "/tmp/seedwt.$id"; cp -a /repo $w; cd $w
  bash $d/demo.sh > /tmp/seed.$id.clean 2>&1; c=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  go build ./... || { echo "$id: no build"; continue; }
  go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/seed.$id.json 2>/dev/null
  python3 /opt/vp/results.py /tmp/seed.$id.out gojson:/tmp/seed.$id.json >/dev/null 2>&1
  t=$(python3 - /tmp/seed.$id.out <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    for k in ('stable','passed','tests'):
        if k in x: return x[k]
    return x
s=set(names(b)); p=names(o)
if isinstance(p,dict): p=[k for k,v in p.items() if v in('pass','passed',True)]
print('tests-missing:',sorted(s-set(p)))
P
)
  bash $d/demo.sh > /tmp/seed.$id.bad 2>&1; x=$?
  echo "$id: demo clean=$c patched=$x $t"
  cd /; rm -rf "/tmp/seedwt.$id"
done
