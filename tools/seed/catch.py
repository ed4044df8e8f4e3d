#!/usr/bin/env python3
"""for each planted bug: apply it to a scratch clone of /repo and run the quick check of its property on the clone; prints a table"""
import os, sys, json, subprocess, time, shutil
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H))
ids = [i for i in sorted(os.listdir(f"{V}/seeded")) if not sys.argv[1:] or any(i == a or i.startswith(a) for a in sys.argv[1:])]
def one(i):
    m = json.load(open(f"{V}/seeded/{i}/meta.json")); p = m["property"]; t = time.time(); w = f"/tmp/catch/{i}"; shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w])
    if subprocess.run(["git", "-C", w, "apply", f"{V}/seeded/{i}/patch.diff"]).returncode: shutil.rmtree(w); return f"{i} DOES NOT APPLY"
    try: r = subprocess.run(["python3", f"{V}/run.py", p, "--noevidence"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900, env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1", TG_REPO=w, TG_OUT=f"{w}/out"))
    except subprocess.TimeoutExpired: r = None
    shutil.rmtree(w)
    v = [l for l in r.stdout.split("\n") if "VIOLATION" in l or "ERROR" in l.upper() or l.startswith("NO")] if r else []
    return f"{i:24s} {p} rc={r.returncode if r else 'timeout'} {time.time()-t:5.0f}s {'caught' if r and r.returncode == 1 and 'VIOLATION property='+p in r.stdout else 'MISSED'} {os.path.basename(v[0])[:120] if v else ''}"
with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as P:
    for x in P.map(one, ids): print(x, flush=True)
