#!/usr/bin/env python3
"""tools/tryseeds.py [ids...]: applies each planted change to a scratch copy and runs its property's check there."""
import sys, os, subprocess, json, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(b):
    wt = "/tmp/ts_%s" % b
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run("mkdir %s && cp -a /repo/gradslam /repo/.git %s/ && git -C %s reset -q && git -C %s apply %s/seeded/%s/patch.diff" % (wt, wt, wt, wt, HERE, b), shell=True)
    p = json.load(open("%s/seeded/%s/meta.json" % (HERE, b)))["property"]
    env = dict(os.environ, GRADSLAM_TREE=wt, VERIF_JOBS="3", VERIF_EVIDENCE="/tmp/ts_ev")
    try: r = subprocess.run(["python3", "check.py", p, "-v"], cwd=HERE, env=env, capture_output=True, text=True, timeout=900); rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired: rc, out = "timeout", ""
    shutil.rmtree(wt, ignore_errors=True)
    v = [l for l in out.splitlines() if l.startswith("  ")]
    return b, p, rc, (v[0][:260] if v else out.strip().splitlines()[-1:]), len(v)
ids = sys.argv[1:] or sorted(os.listdir(HERE + "/seeded"))
with cf.ThreadPoolExecutor(3) as ex:
    miss = 0
    for b, p, rc, v, n in ex.map(one, ids):
        print("%-6s %s %s rc=%s n=%s %s" % ("CAUGHT" if rc == 1 else "MISSED", b, p, rc, n, v), flush=True)
        miss += rc != 1
    print(len(ids), "planted,", miss, "missed")
