#!/usr/bin/env python3
"""tools/seed.py FILE.py : makes /verif/seeded/<id>/ from a description; each entry is validated in a scratch copy.
A description file defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo="python text")]"""
import sys, os, subprocess, shutil, json, importlib.util
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import sys, types
o3 = types.ModuleType("open3d"); sys.modules.setdefault("open3d", o3)
import warnings; warnings.simplefilter("ignore")
import torch
torch.manual_seed(0)
'''
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec "$PY" "$here/demo.py"
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def main():
    spec = importlib.util.spec_from_file_location("b", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = sys.argv[2:]
    wt = "/tmp/seedwt"
    if os.path.exists(wt): shutil.rmtree(wt)
    sh("cp -a /repo %s" % wt)
    orig = sh("git -C %s rev-list --max-parents=0 HEAD" % wt).stdout.strip()
    for b in m.BUGS:
        if only and b["id"] not in only: continue
        sh("git -C %s checkout -q -- ." % wt)
        d = os.path.join(HERE, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
        for f, old, new in b["edits"]:
            p = os.path.join(wt, f); s = open(p).read()
            n = b.get("count", 1)
            if s.count(old) != n: print(b["id"], "EDIT: %d occurrences of" % s.count(old), repr(old[:80])); break
            open(p, "w").write(s.replace(old, new))
        else:
            diff = sh("git -C %s diff" % wt).stdout
            # removed lines must belong to the original repository
            for f, old, new in b["edits"]:
                bl = sh("git -C /repo blame -l -s -- %s" % f).stdout.splitlines()
                chg = []
            cur = None; foreign = []
            for f in {e[0] for e in b["edits"]}:
                bl = sh("git -C /repo blame -l -s -- %s" % f).stdout.splitlines()
                for h in sh("git -C %s diff -U0 -- %s" % (wt, f)).stdout.splitlines():
                    if h.startswith("@@"):
                        a = h.split()[1][1:].split(","); st = int(a[0]); n = int(a[1]) if len(a) > 1 else 1
                        for k in range(st, st + n):
                            if not bl[k - 1].lstrip("^").startswith(orig[:30]): foreign.append((f, k))
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.py"), "w").write(HEAD + b["demo"].strip("\n") + "\n")
            open(os.path.join(d, "demo.sh"), "w").write(SH); os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            r1 = sh("bash %s/demo.sh" % d, cwd=wt)
            sh("git -C %s checkout -q -- ." % wt)
            r0 = sh("bash %s/demo.sh" % d, cwd=wt)
            sh("git -C %s apply %s/patch.diff" % (wt, d))
            t = "-"
            if r1.returncode != 0 and r0.returncode == 0 and not os.environ.get("NOTEST"):
                r = sh("cd %s && PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=%s:/opt/vp/harness /opt/venv/bin/python -m pytest -q -p gradslam_without_open3d --deselect tests/datasets/test_datautils.py::TestDataUtils::test_normalize_image -p no:cacheprovider --ignore=tests/slam/test_fusionutils.py --ignore=tests/structures/test_pointclouds.py --ignore=tests/structures/test_utils.py --ignore=tests/odometry/test_gradicp.py --ignore=tests/odometry/test_icp.py --ignore=tests/odometry/test_icputils.py tests 2>&1 | tail -3" % (wt, wt))
                t = r.stdout.strip().splitlines()[-1]
            okk = r0.returncode == 0 and r1.returncode != 0 and ("passed" in t or os.environ.get("NOTEST")) and "failed" not in t
            print(b["id"], b["prop"], "OK" if okk else "BAD", "base rc=%d patched rc=%d" % (r0.returncode, r1.returncode), t, "FOREIGN %s" % foreign if foreign else "", (r0.stderr if r0.returncode else r1.stderr).strip().splitlines()[-1:] )
            if not okk: shutil.rmtree(d)
    shutil.rmtree(wt)
main()
