#!/bin/bash
# dev tool: try one planted bug in a scratch copy (never touches /repo). usage: trybug.sh <seeded id> [checks...]
id=$1; shift
src=/verif/seeded/$id
W=/tmp/bugtry/$id; rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo"; cp -a /verif "$W/verif"; rm -rf "$W/verif/seeded" "$W/verif/evidence"
sed -i "s#/repo#$W/repo#g" "$W/verif/checks/run.py"; sed -i "s#^REPO = .*#REPO = \"$W/repo\"#" "$W/verif/symx/check.py"
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
cd "$W/repo"
if [ -z "$NOTEST" ]; then timeout 300 bash $src/demo.sh >$W/demo0.log 2>&1; d0=$?; else d0=skip; fi
git apply $src/patch.diff || { echo "$id: PATCH FAILS"; exit 1; }
if [ -z "$NOTEST" ]; then
 timeout 300 bash $src/demo.sh >$W/demo1.log 2>&1; d1=$?
 sed "s#cd /repo#cd $W/repo#" /opt/vp/test.sh > $W/test.sh; sed "s#cd /repo#cd $W/repo#" /opt/vp/build.sh > $W/build.sh
 bash $W/build.sh >$W/build.log 2>&1; b=$?
 bash $W/test.sh $W/out.json >$W/test.log 2>&1
 lost=$(python3 -c "
import json;o=json.load(open('$W/out.json'));b=json.load(open('/opt/vp/BASELINE.json'));print(len(set(b['stable'])-set(o['passed'])))")
 echo "$id: demo clean=$d0 patched=$d1 build=$b lost_tests=$lost"
fi
props=${@:-$(python3 -c "import json;print(json.load(open('$src/meta.json'))['property'])")}
for p in $props; do
 s=$(date +%s); (cd "$W/verif"; ./run.sh $p quick >$W/$p.log 2>&1); echo "$id: check $p exit=$? $(($(date +%s)-s))s: $(grep -m1 VIOLATION $W/$p.log) $(grep -c VIOLATION $W/$p.log)"
done
rm -rf "$W/repo" "$W/verif"
