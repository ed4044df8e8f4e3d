#!/usr/bin/env python3
"""plants bugs in a scratch copy of /repo and keeps the confirmed ones in /verif/seeded/<id>/"""
import os, sys, subprocess, shutil, json, importlib.util, glob
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H))
def sh(c, cwd, t=300):
    try: p = subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t); return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return 124, "timeout"
def plant(b, slot):
    w = f"/tmp/plant/{slot}/repo"; shutil.rmtree(f"/tmp/plant/{slot}", ignore_errors=True); os.makedirs(f"/tmp/plant/{slot}")
    sh(f"git clone -q {os.environ.get("TG_REPO", "/repo")} {w}", "/tmp")
    d = f"/tmp/plant/{slot}/seed"; os.makedirs(d)
    open(f"{d}/demo.cpp", "w").write('#include "demo.hpp"\n' + b["demo"].strip() + "\n"); shutil.copy(f"{H}/demo.hpp", d)
    open(f"{d}/demo.sh", "w").write(open(f"{H}/demo.sh").read().replace("SAN", {None: "", True: "-fsanitize=address,undefined"}.get(b.get("san"), b.get("san"))).replace("RUNS", str(b.get("runs", 1))).replace("LOCALE", f'localedef -i {b["loc"].split(".")[0]} -f {b["loc"].split(".")[1]} "$w/{b["loc"]}" || exit 3; export LOCPATH="$w" LC_ALL={b["loc"]}\n' if b.get("loc") else "")); os.chmod(f"{d}/demo.sh", 0o755)
    rc, o = sh(f"bash {d}/demo.sh", w)
    if rc: return f"{b['id']}: demo fails on the clean tree rc={rc}\n{o[-1500:]}"
    for f, old, new in b["edits"]:
        p = f"{w}/{f}"; s = open(p).read()
        if s.count(old) != 1: return f"{b['id']}: {s.count(old)} matches of {old!r}"
        open(p, "w").write(s.replace(old, new))
    rc, diff = sh("git diff", w); 
    # removed lines must be of the original repository
    sh(f"cmake -S /opt/vp/cmake -B {w}/_b -G Ninja -DREPO={w} -DCMAKE_BUILD_TYPE=Debug && ninja -C {w}/_b > {w}/../log 2>&1", w)
    rc, o = sh(f"ninja -C {w}/_b", w)
    if rc: return f"{b['id']}: does not build\n{o[-1500:]}"
    if b.get("notests") is None:
        rc, o = run_tests(w)
        if rc: return f"{b['id']}: existing tests fail\n{o}"
    rc, o = sh(f"bash {d}/demo.sh", w)
    if rc in (0, 3): return f"{b['id']}: demo does not fail with the bug (rc={rc})\n{o[-800:]}"
    out = f"{V}/seeded/{b['id']}"; shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
    open(f"{out}/patch.diff", "w").write(diff); json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{out}/meta.json", "w"), indent=1)
    shutil.rmtree(f"/tmp/plant/{slot}", ignore_errors=True); return f"{b['id']}: kept"
def run_tests(w):
    t = "\n".join(l for l in open("/opt/vp/test.sh").read().split("\n") if "build.sh" not in l).replace("/repo", w).replace(f"{w}/_build", f"{w}/_b"); open(f"{w}/../test.sh", "w").write(t)
    rc, o = sh(f"bash {w}/../test.sh {w}/../out.json", w)
    try: r = open(f"{w}/../out.json").read()
    except OSError: return 1, o
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]; res = json.loads(r)
    passed = res.get("passed", [k for k, v in res.items() if v in (True, "pass", "passed")] if isinstance(res, dict) else [])
    miss = [x for x in base if x not in passed]; return (1, f"failing: {miss} {r[:300]}") if miss else (0, "")
if __name__ == "__main__":
    bugs = []
    for f in sorted(glob.glob(f"{H}/bugs*.py")):
        sp = importlib.util.spec_from_file_location("b", f); mod = importlib.util.module_from_spec(sp); sp.loader.exec_module(mod); bugs += mod.BUGS
    sel = sys.argv[1:]; bugs = [b for b in bugs if (b["id"] in sel if sel else not os.path.exists(f"{V}/seeded/{b['id']}/meta.json"))]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(lambda x: plant(x[1], x[0]), enumerate(bugs)): print(r)
