#!/bin/bash
# tryout.sh ID...: for each planted bug, in a private copy of /repo: does it build and
# pass the stable tests, does its demo tell the trees apart, and does its check see it?
here=$(dirname "$(readlink -f "$0")")/..
one() {
  id=$1; d=$here/seeded/$id
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  out=$(mktemp -d)
  "$here"/tools/withpatch.sh $d/patch.diff bash -c "
    cd /repo
    NUMBA_CACHE_DIR=$out/nb bash /opt/vp/test.sh $out/t.json >/dev/null 2>&1
    python3 -c \"
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('$out/t.json'))
p=t.get('passed',t) ; print('tests', 'ok' if all(x in p for x in b) else 'FAIL')\"
    bash $d/demo.sh >/dev/null 2>$out/demo.err; echo demo-patched=\$?
    cd $here; timeout 900 /opt/venv/bin/python -B check.py $prop 2>&1 | tail -3; echo check=\${PIPESTATUS[0]}
  " > $out/log 2>&1
  (cd /repo; bash $d/demo.sh >/dev/null 2>&1; echo demo-clean=$?) >> $out/log
  echo "== $id ($prop): $(tr '\n' '|' < $out/log)"
  rm -rf "$out"
}
for id in "$@"; do one $id; done
