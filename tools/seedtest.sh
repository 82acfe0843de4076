#!/bin/bash
# seedtest.sh ID...: for each planted bug, in a scratch copy of /repo's sources: does its property's check catch it?
# seedtest.sh -v ID...: also validate it (build, stable tests, demo on both trees) in a copy of /repo, shown as /repo in a private mount namespace.
V=/verif; full=0; [ "$1" = -v ] && { full=1; shift; }
if [ $full = 1 ]; then
  W=/tmp/seedrv.$$; rm -rf "$W"; cp -a /repo "$W"
  cat > $W.sh <<'X'
mount --bind "$1" /repo || exit 9
shift
for id in "$@"; do
  d=/verif/seeded/$id; L=$(mktemp -d)
  ( cd /repo && timeout 300 bash $d/demo.sh >$L/demo0.log 2>&1 ); r0=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >$L/build.log 2>&1; rb=$?
  bash /opt/vp/test.sh $L/o.json >/dev/null 2>&1
  miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$L/o.json'))
print([x for x in b['stable'] if x not in o['passed']])")
  ( cd /repo && timeout 300 bash $d/demo.sh >$L/demo1.log 2>&1 ); r1=$?
  git -C /repo checkout -- .
  echo "$id: build=$rb missing=$miss demo clean=$r0 planted=$r1"; rm -rf "$L"
done
X
  unshare -Urm bash $W.sh "$W" "$@"; rm -rf "$W" "$W.sh"
fi
for id in "$@"; do
  d=$V/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); S=/tmp/seedw.$$
  rm -rf "$S"; mkdir "$S"; cp -a /repo/src /repo/.git "$S"/ 2>/dev/null; (cd "$S" && git apply $d/patch.diff) || { echo "$id does not apply"; continue; }
  (cd $V && VX_REPO=$S VX_TOTAL=${VX_TOTAL:-300} bin/vx check $prop > /tmp/seed_check_$id.log 2>&1); rc=$?
  echo "$id ($prop): check rc=$rc $(grep -m1 -A1 VIOLATION /tmp/seed_check_$id.log | tr '\n' ' ' | cut -c1-200)"
  rm -rf "$S"
done
