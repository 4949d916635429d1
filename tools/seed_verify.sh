#!/bin/bash
# seed_verify.sh ID...   confirm planted bugs in a scratch copy (/tmp/seedwork): patch applies, builds, stable tests
# pass, demo exits 0 on /repo (built at HEAD) and nonzero in the patched copy.
set -u
W=/tmp/seedwork
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p $W
[ -d $W/repo ] || git clone -q /repo $W/repo
for s in build test; do sed "s#/repo#$W/repo#g" /opt/vp/$s.sh > $W/$s.sh; done
for id in "$@"; do
  cd $W/repo; git fetch -q /repo HEAD; git reset -q --hard FETCH_HEAD
  D=$W/demo; rm -rf /tmp/seedwork/demo; cp -r $V/seeded/$id $D; rm -f $D/patch.diff $D/meta.json
  r0=$(cd /repo && bash $D/demo.sh >$W/d0.log 2>&1; echo $?)
  git apply $V/seeded/$id/patch.diff || { echo "$id: APPLY FAILED"; continue; }
  if ! bash $W/build.sh tests > $W/b.log 2>&1; then echo "$id: BUILD FAILED"; grep -m3 error $W/b.log; continue; fi
  bash $W/test.sh $W/out.json > $W/t.log 2>&1
  miss=$(python3 -c "
import json;o=json.load(open('$W/out.json'));b=json.load(open('/opt/vp/BASELINE.json'));m=sorted(set(b['stable'])-set(o['passed']));print(len(m),m[:3])")
  r1=$(bash $D/demo.sh >$W/d1.log 2>&1; echo $?)
  echo "$id: demo HEAD=$r0 patched=$r1 tests-missing: $miss"
  [ "$r0" != 0 ] && tail -3 $W/d0.log
done
