#!/bin/bash
# tools/seed.sh ID [nocheck]: try the planted bug seeded/ID in a scratch copy of /repo (bind-mounted over /repo in a
# mount namespace of its own): builds, passes the stable tests, demo quiet without and failing with it, and which checks see it.
id=$1; H=/verif; S=$H/seeded/$id; W=/tmp/sd/$id
[ -d "$S" ] || { echo "$id: no such seed"; exit 2; }
mkdir -p /tmp/sd; [ -d "$W" ] && rm -rf "$W"; cp -a /repo "$W"; mkdir -p "$W.d"; cp -a "$S"/. "$W.d"/
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
out="$id $prop:"
un() { unshare -m bash -c "mount --bind $W /repo && cd /repo && $1"; }
if [ "$2" != checkonly ]; then
un "timeout 280 bash $W.d/demo.sh" >"$W.d/clean.log" 2>&1 && out="$out demo-clean-ok" || out="$out DEMO-FAILS-CLEAN"
fi
git -C "$W" apply "$S/patch.diff" || { echo "$out PATCH-DOES-NOT-APPLY"; exit 2; }
if [ "$2" != checkonly ]; then
# tests built in a tmp folder: build.sh writes only in /repo/_build
un "bash /opt/vp/build.sh > $W.d/build.log 2>&1 && bash /opt/vp/test.sh $W.d/t.json > $W.d/test.log 2>&1; exit 0"
r=$(python3 - "$W.d/t.json" <<'P'
import json,sys
try: d=json.load(open(sys.argv[1]))
except Exception as e: print('NO-BUILD'); sys.exit()
b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    for k in ('passed','tests','stable','pass'):
        if isinstance(x,dict) and k in x: return set(map(str,x[k])) if not isinstance(x[k],dict) else {t for t,v in x[k].items() if v in ('passed','pass',True)}
    return set(map(str,x))
m=names(b)-names(d)
print('tests-ok' if not m else 'TESTS-FAIL:%s'%list(m)[:3])
P
)
out="$out $r"
un "timeout 280 bash $W.d/demo.sh" >"$W.d/bug.log" 2>&1 && out="$out DEMO-MISSES" || out="$out demo-fails($?)"
fi
if [ "$2" != nocheck ]; then
for p in $prop $3; do
VERIF_REPO=$W VERIF_SEED=1 timeout 900 python3 $H/check.py $p --tier quick >"$W.d/check-$p.log" 2>&1; c=$?
v=$(grep -c '^VIOLATION' "$W.d/check-$p.log"); e=$(grep -A0 -o '^  [a-z_0-9]* \[[a-z]*\] .*' "$W.d/check-$p.log" | head -1 | cut -c1-110)
[ $c = 1 ] && out="$out CAUGHT($p)[$e]" || out="$out MISSED($p,rc=$c)"
done
fi
rm -rf "$W"
echo "$out"
