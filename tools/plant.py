#!/usr/bin/env python3
"""Development aid: tries planted bugs (/verif/seeded/<id>) in scratch copies of /repo, bind-mounted over /repo in a
private mount namespace. usage: plant.py [--jobs N] [--no-check] [--check-only] [--also C01,..] ID..."""
import json, os, queue, shutil, subprocess, sys, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SEEDED", os.path.join(ROOT, "seeded"))

INNER = r'''
set -u
mount --bind "$WT" /repo
cd /repo
git checkout -q -- . 
R=""
if [ -z "$CHECKONLY" ]; then
  bash /opt/vp/build.sh >"$WT.log" 2>&1 || { echo "RES base-build-failed"; exit; }
  ( timeout 300 bash "$DIR/demo.sh" ) >"$WT.demo0" 2>&1; R="demo-clean=$?"
fi
git apply "$DIR/patch.diff" || { echo "RES patch-does-not-apply"; exit; }
if [ -z "$CHECKONLY" ]; then
  if bash /opt/vp/build.sh >"$WT.log" 2>&1; then
    ( timeout 300 bash "$DIR/demo.sh" ) >"$WT.demo1" 2>&1; R="$R demo-bug=$?"
    bash /opt/vp/test.sh "$WT.json" >/dev/null 2>&1
    R="$R tests=$(python3 -c "
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open(sys.argv[1]))['passed']
m=[x for x in b if x not in t]
print('ok' if not m else 'FAIL:'+','.join(m[:3]))" "$WT.json")"
  else R="$R BUILD-FAILED"; fi
fi
for c in $CHECKS; do
  VERIF_BUILD="$BW" timeout 1500 python3 "$ROOT/run.py" $c quick >"$WT.$c.log" 2>&1; rc=$?
  R="$R $c=$rc"
  [ $rc = 1 ] && R="$R[$(grep -m1 'rejected clauses' "$WT.$c.log" | cut -c1-160)]"
  [ $rc -gt 1 ] && cp "$WT.$c.log" "/tmp/fail.$ID.$c.log"
done
git checkout -q -- .
echo "RES $R"
'''

def main():
    a = sys.argv[1:]
    jobs, nocheck, conly, also, ids = 3, False, False, [], []
    while a:
        x = a.pop(0)
        if x == "--jobs": jobs = int(a.pop(0))
        elif x == "--no-check": nocheck = True
        elif x == "--check-only": conly = True
        elif x == "--also": also = a.pop(0).split(",")
        else: ids.append(x)
    ids = ids or sorted(os.listdir(S))
    q = queue.Queue()
    for i in ids: q.put(i)
    def work(n):
        wt, bw = "/tmp/wt%d" % n, "/tmp/bw%d" % n
        if not os.path.exists(wt):
            subprocess.run(["cp", "-a", "/repo", wt], check=True)
        else:
            subprocess.run("git -C %s checkout -q -- . && git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (wt, wt, wt), shell=True, check=True)
        while True:
            try: i = q.get_nowait()
            except queue.Empty: return
            d = os.path.join(S, i)
            m = json.load(open(os.path.join(d, "meta.json")))
            e = dict(os.environ, WT=wt, BW=bw, DIR=d, ROOT=ROOT, ID=i, CHECKONLY="1" if conly else "",
                     CHECKS="" if nocheck else " ".join([m["property"]] + also))
            r = subprocess.run(["unshare", "-m", "bash", "-c", INNER], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            l = [x for x in r.stdout.splitlines() if x.startswith("RES")]
            print(i, m["property"], l[-1] if l else r.stdout[-500:], flush=True)
    ts = [threading.Thread(target=work, args=(n,)) for n in range(min(jobs, len(ids)))]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
