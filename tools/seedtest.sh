#!/bin/bash
# tools/seedtest.sh SEEDED_ID [notest] [CHECK ...]
# Runs a planted bug in private copies that are bind-mounted over /repo and /verif
# in a namespace of their own: the real directories are never touched.
# Prints: applies, demo on the unchanged tree, build, demo with the patch, stable
# tests, and what the check of the property (or the named checks) says.
id=$1; shift
notest=; [ "$1" = notest ] && { notest=1; shift; }
src=/verif/seeded/$id
[ -d "$src" ] || { echo "no $src"; exit 2; }
checks="$*"
[ -n "$checks" ] || checks=$(python3 -c "import json,sys;print(json.load(open('$src/meta.json'))['property'])")
w=$(mktemp -d /tmp/bug.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cp -a /opt/vp/state "$w/state"; cp -a "${VSRC:-/verif}" "$w/verif"; rm -rf "$w/verif/seeded"
cp -a "$src" "$w/demo"; rm -f "$w/demo"/*.diff "$w/demo/meta.json"
export w src checks notest id
cp $src/patch.diff $w/patch.diff
unshare -Urm bash -c '
mount --bind $w/repo /repo; mount --bind $w/state /opt/vp/state; mount --bind $w/verif /verif
cd /repo
if [ -z "$notest" ]; then
bash /opt/vp/build.sh > $w/b0.log 2>&1 || echo "$id BASE BUILD FAILS"
cd /repo; bash $w/demo/demo.sh > $w/d0.log 2>&1; echo "$id demo unchanged rc=$? (want 0)"
fi
git apply $src/patch.diff 2>/dev/null || git apply /dev/stdin < $w/patch.diff || { echo "$id DOES NOT APPLY"; exit 1; }
if [ -z "$notest" ]; then
bash /opt/vp/build.sh > $w/b.log 2>&1 || { echo "$id BUILD FAILS"; tail -5 $w/b.log; exit 1; }
cd /repo; bash $w/demo/demo.sh > $w/d1.log 2>&1; echo "$id demo patched rc=$? (want nonzero): $(tail -1 $w/d1.log | cut -c1-150)"
( OMP_NUM_THREADS=2 OMP_WAIT_POLICY=passive bash /opt/vp/test.sh $w/t.json > $w/t.log 2>&1; python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$w/t.json"))
def names(x):
    return x
print("$id", "stable tests:", end=" ")
s=set(b.get("stable") or b.get("passed") or b.get("tests") or [])
p=set(t.get("passed") or [])
print("ok" if s and s<=p else ("FAIL %s"%sorted(s-p)))
P
) &
fi
cd /verif
for c in $checks; do
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python run.py $c > $w/c.$c.log 2>&1; rc=$?
  echo "$id check $c rc=$rc $(( $(date +%s)-s ))s $(grep -c ^VIOLATION $w/c.$c.log) violation lines; $(grep -m1 ^VIOLATION $w/c.$c.log)"
  mkdir -p /tmp/buglogs; cp $w/c.$c.log /tmp/buglogs/$id.$c.log
done
wait
'
