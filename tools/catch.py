#!/usr/bin/env python3
"""Runs the check of each planted change (seeded/<id>) against a copy of /repo with the change applied.
  catch.py [ids...]      prints which are caught (quick tier; VERIF_SEED from the environment)"""
import sys, os, json, subprocess, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/vp_catch"
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
for i in ids:
    d = os.path.join(ROOT, "seeded", i)
    subprocess.run("rm -rf /tmp/vp_catch; mkdir -p /tmp/vp_catch; git -C /repo archive HEAD | tar x -C /tmp/vp_catch", shell=True, check=True)
    if subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + WT, os.path.join(d, "patch.diff")], cwd="/").returncode:
        print("NOAPPLY", i, flush=True)
        continue
    p = json.load(open(os.path.join(d, "meta.json")))["property"]
    t = time.time()
    env = dict(os.environ, VERIF_REPO=WT, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
    try:
        r = subprocess.run([sys.executable, os.path.join(ROOT, "run.py"), p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
        hit = r.returncode == 1 and ("VIOLATION property=" + p) in r.stdout
        line = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "fail" in l][:1]
        print("%s %s %s rc=%d %.0fs %s" % ("caught" if hit else "MISSED", i, p, r.returncode, time.time() - t, (line or [""])[0][:160]), flush=True)
    except subprocess.TimeoutExpired:
        print("TIMEOUT", i, p, flush=True)
subprocess.run("rm -rf /tmp/vp_catch", shell=True)
