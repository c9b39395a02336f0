#!/bin/bash
# bugtest.sh ID [nocheck|notests]: development aid. Tries one planted bug in a
# scratch copy of /repo that a private mount namespace shows at /repo.
id=$1; shift
S=/verif/seeded/$id
if [ -z "$BUGTEST_IN" ]; then
    T=/tmp/bt.$id; rm -rf "$T"; mkdir "$T"
    cp -a /repo "$T/repo"; cp -a "$S" "$T/seed"; rm -f "$T"/seed/*.diff
    git -C "$T/repo" update-index -q --refresh; git -C "$T/repo" checkout -q -- . ; cp "$S/patch.diff" "$T/p.diff"
    BUGTEST_IN=$T unshare -Urm "$0" "$id" "$@" > /tmp/bt.$id.log 2>&1
    rm -rf "$T"; grep "^BT" /tmp/bt.$id.log; exit
fi
T=$BUGTEST_IN
mount --bind "$T/repo" /repo
cd /repo
git apply --check "$T/p.diff" || { echo "BT $id patch does not apply"; exit 1; }
bash /opt/vp/build.sh > "$T/b0" 2>&1 || { echo "BT $id base build failed"; exit 1; }
(timeout 300 bash "$T/seed/demo.sh") ; r0=$?
git apply "$T/p.diff"
bash /opt/vp/build.sh > "$T/b1" 2>&1 || { echo "BT $id build failed"; grep -m5 error: "$T/b1"; exit 1; }
(timeout 300 bash "$T/seed/demo.sh"); r1=$?
echo "BT $id demo clean=$r0 bug=$r1"
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
case "$*" in *nocheck*) ;; *)
  P=${P:-$prop}
  for p in $P; do
  mkdir -p "$T/verif"; cp -a /verif/. "$T/verif/"; rm -rf "$T/verif/seeded"
  (mount --bind "$T/verif" /verif; cd /verif; python3 check.py $p quick) > "$T/c" 2>&1; rc=$?
  echo "BT $id check $p rc=$rc $(grep -m1 VIOLATION "$T/c")"; tail -20 "$T/c"; done;;
esac
case "$*" in *notests*) ;; *)
  bash /opt/vp/test.sh "$T/t.json" > "$T/t.log" 2>&1
  python3 - "$T/t.json" "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def flat(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests'):
            if k in x: return set(map(str,x[k]))
    return set(map(str,x))
base=flat(b); miss=base-set(map(str,t['passed']))
print("BT",sys.argv[2],"tests: baseline",len(base),"missing",len(miss),list(miss)[:4])
P
  ;;
esac
