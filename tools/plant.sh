#!/bin/bash
# tools/plant.sh DIR...: for each seeded bug, in an overlay of /repo and of its
# build: applies the patch, builds, runs the stable tests and the demo (which
# must fail with the patch and pass without), then the named checks.
set -u
one() {
  d=$(realpath "$1"); id=$(basename "$d"); w=/tmp/plant.$id.$$
  mkdir -p $w/{ru,rw,bu,bw,ou,ow,demo}
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp -r "$d"/. $w/demo/; rm -f $w/demo/*.diff $w/demo/meta.json
  unshare -m bash -c "
    mount -t overlay overlay -o lowerdir=/repo,upperdir=$w/ru,workdir=$w/rw /repo &&
    mount -t overlay overlay -o lowerdir=/opt/nisaba-build,upperdir=$w/bu,workdir=$w/bw /opt/nisaba-build || exit 9
    cd /repo
    if [ -z \"\${NODEMO0:-}\" ]; then bash $w/demo/demo.sh >$w/demo0.log 2>&1; echo \"demo-clean rc=\$?\"; fi
    git apply $d/patch.diff || { echo 'patch does not apply'; exit 8; }
    bash /opt/vp/build.sh >$w/build.log 2>&1 || { echo build-failed; tail -5 $w/build.log; }
    bash $w/demo/demo.sh >$w/demo1.log 2>&1; echo \"demo-patched rc=\$?\"; tail -2 $w/demo1.log
    if [ -z \"\${NOTEST:-}\" ]; then
    bash /opt/vp/test.sh $w/out.json >$w/test.log 2>&1
    python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
r=json.load(open('$w/out.json'))
p=set(r.get('passed') or [k for k,v in r.items() if v=='passed'])
bad=[x for x in b if x not in p]
print('tests broken:',len(bad),bad[:4])
P
    fi
    cd /verif
    for c in \${CHECKS:-$prop}; do ./check \$c 2>&1 | cut -c1-260 | tail -4; done
  " 2>&1 | sed "s/^/[$id] /"
  rm -rf "$w"
}
for d in "$@"; do one "$d"; done
