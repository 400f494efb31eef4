#!/usr/bin/env python3
"""Confirms planted changes in a private copy of /repo (mount namespace) and optionally runs their property's check.

usage: seedtest.py [--check] [--nobuild] [--tier T] ID...
"""
import json, os, shutil, subprocess, sys, time, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
check = "--check" in args
nobuild = "--nobuild" in args
props = [a[7:].split(",") for a in args if a.startswith("--prop=")]
ids = [a for a in args if not a.startswith("--")]
SCRIPT = r'''
set -u
mount --bind "$COPY" /repo
cd /repo
D=$COPY.demodir; mkdir $D; cp -a $SEED/. $D/; rm -f $D/*.diff $D/meta.json
if [ "$NOBUILD" = 0 ]; then
bash $D/demo.sh >$COPY.demo0 2>&1; echo "demo_clean=$?"
fi
git apply $SEED/patch.diff || { echo "apply=FAILED"; exit 0; }
if [ "$NOBUILD" = 0 ]; then
bash /opt/vp/build.sh >$COPY.build 2>&1; echo "build=$?"
bash /opt/vp/test.sh $COPY.test.json 2>&1 | tail -1 | sed 's/^/tests=/'
bash $D/demo.sh >$COPY.demo1 2>&1; echo "demo_bug=$?"
tail -3 $COPY.demo1 | sed 's/^/   demo: /'
fi
for p in $PROPS; do
 ( cd $VERIF && timeout 900 python3 bin/check.py $p --tier ${TIER:-quick} ) >$COPY.check 2>&1; echo "check $p=$?"
 grep -a -A2 -E "VIOLATION|CHECK-ERROR" $COPY.check | cut -c1-300 | head -8 | sed 's/^/   /'
done
'''
for i in ids:
    seed = os.path.join(V, "seeded", i)
    meta = json.load(open(seed + "/meta.json"))
    copy = tempfile.mkdtemp(prefix="seed_%s_" % i, dir="/tmp")
    t0 = time.time()
    subprocess.run(["cp", "-a", "/repo/.", copy], check=True)
    # checks rewrite evidence: work on a copy of /verif's machinery
    vcopy = copy + ".verif"
    subprocess.run(["cp", "-a", V, vcopy], check=True)
    env = dict(os.environ, COPY=copy, SEED=vcopy + "/seeded/" + i, VERIF=vcopy, NOBUILD="1" if nobuild else "0",
               PROPS=" ".join(props[0] if props else [meta["property"]]) if check else "")
    for a in args:
        if a.startswith("--tier="):
            env["TIER"] = a[7:]
    r = subprocess.run(["unshare", "-m", "bash", "-c", SCRIPT], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    print("== %s (%s) %.0fs\n%s" % (i, meta["property"], time.time() - t0, r.stdout), flush=True)
    subprocess.run(["bash", "-c", "rm -rf %s %s.*" % (copy, copy)])
