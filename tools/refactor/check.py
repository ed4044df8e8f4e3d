#!/usr/bin/env python3
"""applies each refactoring to a clone, builds, runs the existing tests and every check on it"""
import os, sys, subprocess, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seed")); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant, refactors, refactors2
V = plant.V
def apply(edits, w):
    for f, start, end, new in edits:
        p = f"{w}/{f}"; s = open(p).read()
        if s.count(start) != 1: return f"{s.count(start)} matches of {start!r}"
        i = s.index(start)
        if end is None: s = s[:i] + new + s[i+len(start):]
        else:
            j = s.find(end, i + 1)
            if j < 0: return f"no end {end!r}"
            s = s[:i] + new + s[j:]
        open(p, "w").write(s)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mutate")); from mutate import ORDER
from concurrent.futures import ThreadPoolExecutor
only = [x for x in sys.argv[1:] if not x.startswith("C")]; sel = [x for x in sys.argv[1:] if x.startswith("C")]
def run(name):
    edits = refactors.R[name]; d = f"/tmp/refac/{name}"; w = f"{d}/repo"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); plant.sh(f"git clone -q /repo {w}", "/tmp"); out = []
    try:
        e = apply(edits, w)
        if e: return f"{name} EDIT {e}"
        rc, o = plant.sh(f"cmake -S /opt/vp/cmake -B {w}/_b -G Ninja -DREPO={w} -DCMAKE_BUILD_TYPE=Debug && ninja -C {w}/_b", w)
        if rc: return f"{name} BUILD {o[-1500:]}"
        rc, o = plant.run_tests(w)
        if rc: return f"{name} TESTS {o}"
        props = sel or sorted({p for f, *_ in edits for p in (ORDER.get(f) or " ".join(ORDER.values())).split()})
        for p in props:
            try: r = subprocess.run(["python3", f"{V}/run.py", p, "--noevidence"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900, env=dict(os.environ, TG_REPO=w, TG_OUT=f"{d}/out", VERIF_TIER="quick"))
            except subprocess.TimeoutExpired: out.append(f"{name} {p} TIMEOUT"); continue
            if r.returncode: out.append(f"{name} {p} rc {r.returncode}\n   " + "\n   ".join(x[:300] for x in [l for l in r.stdout.split("\n") if l.strip()][-6:]))
        return "\n".join(out + [f"{name} done: {' '.join(props)}"])
    finally: shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as P:
    for x in P.map(run, [n for n in refactors.R if not only or n in only]): print(x, flush=True)
