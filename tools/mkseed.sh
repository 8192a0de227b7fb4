#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks": in scratch copy /tmp/seedwt (already edited), confirm and keep the change as /verif/seeded/ID.
# expects /tmp/seedwt (cp -a of /repo, edited) and /tmp/seed_ID.cpp (demo source).
ID=$1
S=/verif/seeded/$ID; mkdir -p $S
git -C /tmp/seedwt diff > $S/patch.diff
cp /verif/tools/seed_template/demo.h /verif/tools/seed_template/demo.sh $S/; cp /tmp/seed_$ID.cpp $S/demo.cpp
python3 - "$@" <<'P'
import json,sys
id,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f"/verif/seeded/{id}/meta.json","w"),indent=1)
P
cd /repo && bash $S/demo.sh > /tmp/seed_clean.log 2>&1; C=$?
cd /tmp/seedwt && sed 's#/repo#/tmp/seedwt#g' /opt/vp/build.sh > /tmp/seedbuild.sh && bash /tmp/seedbuild.sh > /tmp/seed_build.log 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/seed_build.log; exit 1; }
bash $S/demo.sh > /tmp/seed_bug.log 2>&1; B=$?
mkdir -p /tmp/seedwt/_build/vp-results; rm -f /tmp/seedwt/_build/vp-results/*
python3 /opt/vp/run_gtests.py /tmp/seedwt/_build/tests/hydrobricks-tests /tmp/seedwt/_build/vp-results > /tmp/seed_test.log 2>&1
python3 /opt/vp/results.py /tmp/seed_out.json "junit:/tmp/seedwt/_build/vp-results/*.xml" "lines:/tmp/seedwt/_build/vp-results/crashed.txt"
python3 - <<'P'
import json
o=json.load(open('/tmp/seed_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable','tests'):
            if k in x: return set(x[k])
    return set(x)
m=names(b)-names(o)
print("tests missing:",sorted(m)[:5])
P
echo "demo clean=$C bug=$B"; for f in /tmp/seed_clean.log /tmp/seed_bug.log; do tail -n 3 $f; done
