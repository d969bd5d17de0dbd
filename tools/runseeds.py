#!/usr/bin/env python3
"""runseeds.py [id...]: run the claimed check of each seeded bug against a patched scratch copy (development aid;
vcheck does the same against /repo)."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MQ_REPO", "/repo")
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
def one(i):
    w = "/tmp/rs_" + i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", REPO, w])
    subprocess.check_call(["git", "-C", w, "apply", V + "/seeded/" + i + "/patch.diff"])
    p = json.load(open(V + "/seeded/" + i + "/meta.json"))["property"]
    r = subprocess.run([V + "/check", p], env=dict(os.environ, MQ_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(w, ignore_errors=True)
    lines = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")]
    return i, p, r.returncode, "VIOLATION property=" + p in r.stdout, (lines or [""])[-1][:160] if r.returncode == 1 else r.stdout[-400:]
with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for i, p, rc, v, t in ex.map(one, ids):
        print("%-40s %s %s rc=%d %s" % (i, p, "CAUGHT" if rc == 1 and v else "MISSED", rc, t), flush=True)
