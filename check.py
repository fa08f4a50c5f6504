#!/usr/bin/env python3
"""Decides one property of gradslam from the current source tree:  check.py <ID> [--tier quick|thorough]"""
import sys, os, json, time, importlib, argparse
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import threading
from sa import engine

MODULES = [m[:-3] for m in sorted(os.listdir(os.path.join(HERE, "checks"))) if m.endswith(".py") and not m.startswith("_")]

def scenarios(pid):
    out = []
    for m in MODULES:
        mod = importlib.import_module("checks." + m)
        for s in getattr(mod, "SC", ()):
            if pid in s["props"]: out.append(s)
            elif pid in engine.rules.AUTO and not s.get("dead") and not (pid == "P15" and ("detach" in s["src"] or "record" in s["src"])): out.append(dict(s, autoonly=True))   # path rules apply to every driver
    return out
def passes(pid):
    out = []
    for m in MODULES:
        mod = importlib.import_module("checks." + m)
        out += getattr(mod, "PASSES", {}).get(pid, [])
    return out
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("-v", action="store_true"); ap.add_argument("--only")
    a = ap.parse_args()
    t0 = time.time()
    rep = engine.Report(a.pid)
    todo = [s for s in scenarios(a.pid) if not (a.only and a.only not in s["id"]) and not (s.get("tier") == "thorough" and a.tier != "thorough")]
    engine.run_all(rep, todo, a.pid, int(os.environ.get("VERIF_JOBS", "6")))
    for f in passes(a.pid): f(rep, engine.tree("repo"), a.tier)
    engine.finish(rep, a, time.time() - t0)
if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    def go():
        try: main(); rc.append(0)
        except SystemExit as e: rc.append(e.code or 0)
        except BaseException:
            import traceback; traceback.print_exc(); rc.append(3)
    t = threading.Thread(target=go); t.start(); t.join()
    sys.exit(rc[0] if rc else 3)
