#!/bin/bash
# verify_seed.sh ID... : confirm a planted bug in a scratch copy of /repo (applies, builds, stable
# tests still pass, demo passes without and fails with it), then run its property's quick check
# with the patch applied to /repo and undo it.
ROOT=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/pl
prep() {
    [ -d $S/repo ] && return
    mkdir -p $S/vp
    cp -a /repo $S/repo
    for f in build.sh test.sh env.sh; do
        sed "s#/repo#$S/repo#g; s#/opt/vp/\(build\|test\|env\).sh#$S/vp/\1.sh#g; s#LOGS=/opt/vp/logs#LOGS=$S/logs#" /opt/vp/$f >$S/vp/$f
    done
}
prep
for id in "$@"; do
    d=$ROOT/seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C $S/repo checkout -q -- . ; git -C $S/repo fetch -q /repo HEAD && git -C $S/repo reset -q --hard FETCH_HEAD
    tmp=$(mktemp -d); cp $d/* $tmp/; rm -f $tmp/patch.diff $tmp/meta.json
    bash $S/vp/build.sh >$S/b0.log 2>&1 || echo "$id: BASE BUILD FAILS"
    (cd $S/repo && timeout 300 bash $tmp/demo.sh >$S/d0.log 2>&1); r0=$?
    git -C $S/repo apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
    bash $S/vp/build.sh >$S/b1.log 2>&1 || { echo "$id: DOES NOT BUILD"; tail -20 $S/b1.log; continue; }
    bash $S/vp/test.sh $S/out.json >$S/t1.log 2>&1
    missing=$(python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$S/out.json'))
def names(x):
    for k in ('stable','passed','tests','pass'):
        if k in x: x=x[k]; break
    return set(x) if not isinstance(x,dict) else set(k for k,v in x.items() if v in ('passed','pass',True))
print(' '.join(sorted(names(b)-names(o))))
PY
)
    (cd $S/repo && timeout 300 bash $tmp/demo.sh >$S/d1.log 2>&1); r1=$?
    git -C $S/repo checkout -q -- .
    rm -rf "$tmp"
    git -C /repo apply $d/patch.diff
    t0=$(date +%s)
    out=$(timeout 900 $ROOT/check.sh $prop quick 2>&1); rc=$?
    t1=$(date +%s)
    git -C /repo checkout -q -- .
    hit=$(echo "$out" | grep -c "VIOLATION property=$prop ")
    ok=BAD; [ $r0 = 0 ] && [ $r1 != 0 ] && [ -z "$missing" ] && ok=valid
    det=MISSED; [ $rc = 1 ] && [ $hit -gt 0 ] && det=caught
    echo "$id $prop: $ok (demo $r0/$r1, tests lost: '${missing}') $det (rc=$rc, $((t1-t0))s)"
done
