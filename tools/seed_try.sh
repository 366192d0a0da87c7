#!/bin/bash
# seed_try.sh ID [PROP...]   Confirms a planted bug (seeded/ID) in private copies of /repo and /opt/vp, mounted
# in a namespace of its own, and runs the checks of its property (or the ones given) against it.
# Nothing outside /tmp/seedtry.ID and /tmp/seedlog.ID is written, and the former is removed.
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
d=$here/seeded/$id
w=/tmp/seedtry.$id
log=/tmp/seedlog.$id
: > "$log"
rm -rf "$w"; mkdir -p "$w"
cp -a /repo "$w/repo"; cp -a /opt/vp "$w/vp"; cp -a "$d" "$w/demo"; cp -a "$here" "$w/verif"
rm -f "$w"/demo/*.diff "$w"/demo/meta.json
props=${*:-$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")}
export w d here props log
unshare -rm bash -c '
mount --bind $w/repo /repo && mount --bind $w/vp /opt/vp && mount --bind $w/verif /verif || exit 9
cd /repo && git checkout -q -- . 
bash /opt/vp/build.sh >>$log 2>&1 || { echo "BUILD0 FAILED"; exit 1; }
(cd /repo; timeout 300 bash $w/demo/demo.sh) >>$log 2>&1; a=$?
git apply $w/verif/seeded/'$id'/patch.diff || { echo "APPLY FAILED"; exit 1; }
bash /opt/vp/build.sh >>$log 2>&1 || { echo "BUILD FAILED"; exit 1; }
(cd /repo; timeout 300 bash $w/demo/demo.sh) >>$log 2>&1; b=$?
t=skip
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $w/out.json >>$log 2>&1
t=$(python3 - <<EOF
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("'$w'/out.json"))
p=set(o["passed"])
print("ok" if set(b["stable"])<=p else "FAILS %s" % sorted(set(b["stable"])-p)[:3])
EOF
)
fi
echo "$(basename $d): demo clean=$a patched=$b tests=$t"
cd /verif
if [ -z "$NOCHECK" ]; then
for p in $props; do
  s=$(date +%s); timeout 900 python3-vt run.py $p --tier ${TIER:-quick} > $w/c.txt 2>&1; r=$?
  cat $w/c.txt >>$log
  n=$(grep -c "^VIOLATION" $w/c.txt)
  echo "$(basename $d): $p exit=$r violations=$n $(( $(date +%s)-s ))s $(grep "^VIOLATION" $w/c.txt | head -1 | cut -c1-200)"
done
fi'
rm -rf "$w"
