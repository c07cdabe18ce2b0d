"""Runs the property's check against each planted bug in a scratch copy.  usage: runseeds.py [id ...]"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(sid):
    d = os.path.join(V, "seeded", sid); w = f"/tmp/seedr/{sid}"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run(["git", "clone", "-q", "/repo", w + "/repo"], check=True)
    subprocess.run(["git", "-C", w + "/repo", "apply", d + "/patch.diff"], check=True)
    p = json.load(open(d + "/meta.json"))["property"]; t = time.time()
    x = subprocess.run([V + "/check", p, "quick"], capture_output=True, text=True, env=dict(os.environ, MPSV_REPO=w + "/repo"))
    shutil.rmtree(w, ignore_errors=True)
    v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
    return f"{sid} {p} rc={x.returncode} {time.time()-t:.0f}s {v[:1]}" + ("" if v else "   !! MISSED " + x.stdout[-300:] + x.stderr[-300:])
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
with ThreadPoolExecutor(3) as ex:
    for m in ex.map(one, ids): print(m, flush=True)
