#!/bin/bash
# trybug.sh ID [checks...]: in a private mount namespace with a copy of /repo in place of /repo, confirm that seeded/ID builds,
# passes the stable tests, has a demo that passes without and fails with the patch, and which checks report it.
# SKIPTEST=1 skips the test suite.
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd); S=$(ls -d $V/seeded*/$ID)
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CHECKS=${*:-$P}
W=$(mktemp -d /tmp/bug-$ID.XXXX)
cp -a /repo "$W/repo"; mkdir "$W/seed" "$W/ev"; cp "$S"/* "$W/seed"; rm -f "$W"/seed/*.diff "$W/seed/meta.json"
unshare -Urm bash -c '
W='$W'; S='$S'; V='$V'
mount --bind $W/repo /repo
mkdir -p $V/evidence; mount --bind $W/ev $V/evidence
cd /repo
export TMPDIR=$W/tmp; mkdir $W/tmp
bash /opt/vp/build.sh >$W/b0.log 2>&1 || { echo "'$ID': clean build failed"; exit 1; }
bash $W/seed/demo.sh >$W/d0.log 2>&1; d0=$?
git apply $S/patch.diff || exit 1
bash /opt/vp/build.sh >$W/b1.log 2>&1 || { echo "'$ID': patched build FAILED"; tail -5 $W/b1.log; exit 1; }
bash $W/seed/demo.sh >$W/d1.log 2>&1; d1=$?
t=skipped
if [ -z "$SKIPTEST" ]; then bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1; t="$(grep -c PASS $W/t.log)/12 $(grep FAIL $W/t.log | tr "\n" " ")"; fi
r=""
cd $V
[ -n "$NOCHECK" ] || for c in '"$CHECKS"'; do
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/$c.py >$W/c.$c.log 2>&1; rc=$?
  v=no; grep -q "^VIOLATION property=$c " $W/c.$c.log && v=yes
  r="$r $c:rc=$rc,violation=$v,$(( $(date +%s)-s ))s"
done
echo "'$ID': demo clean=$d0 patched=$d1 tests=$t checks:$r"
'
[ -n "$KEEP" ] && echo "kept $W" || rm -rf "$W"
