#!/bin/bash
# usage: tools/plant.sh ID [check...]   validates /verif/seeded/ID in a scratch copy, then runs the given checks on it
# (default: the check of the property the bug is planted against)
id=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd); d=$V/seeded/$id
w=/tmp/plant.$id
rm -rf "$w"; cp -a /repo "$w"; rm -rf "$w/.git/worktrees"
log=/tmp/plant.$id.log; : >"$log"
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
(cd "$w" && PYTHONPATH=$w/src timeout 300 bash "$d/demo.sh") >>"$log" 2>&1; a=$?
git -C "$w" apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$w"; exit 1; }
(cd "$w" && PYTHONPATH=$w/src timeout 300 bash "$d/demo.sh") >>"$log" 2>&1; b=$?
t=skipped
if [ -z "$NOTESTS" ]; then
sed "s#cd /repo#cd $w#" /opt/vp/test.sh >/tmp/plant.$id.test.sh
PYTHONPATH=$w/src bash /tmp/plant.$id.test.sh /tmp/plant.$id.json >/tmp/plant.$id.test.log 2>&1
t=$(/usr/bin/python3 - "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(f'/tmp/plant.{sys.argv[1]}.json'))
st=set(b.get('stable') or b.get('passed') or b.get('tests')); ps=set(o.get('passed') or o.get('pass'))
print('broken:',sorted(st-ps)[:5],len(st-ps))
P
)
rm -f /tmp/plant.$id.test.sh /tmp/plant.$id.json
fi
p=$(/usr/bin/python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
echo "$id: demo clean=$a patched=$b tests $t"
[ -n "$NOCHECKS" ] && { rm -rf "$w"; exit; }
for c in ${@:-$p}; do
  s=$(date +%s)
  VERIF_REPO=$w bash $V/run.sh $c quick >/tmp/plant.$id.$c.out 2>&1; r=$?
  echo "   $c exit=$r $(( $(date +%s)-s ))s $(grep VIOLATION /tmp/plant.$id.$c.out | head -3 | tr '\n' ' ')"
done
rm -rf "$w"
