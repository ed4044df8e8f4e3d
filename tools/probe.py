#!/usr/bin/env python3
"""Development aid, not a check: runs harness/probe.cpp (one library feature per entry) through the engine and natively."""
import os, re, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); os.chdir(V)
import run, checks
names = sorted(set(re.findall(r"^P\((\w+)\)", open(f"{V}/harness/probe.cpp").read(), re.M)))
if "--run" in sys.argv:
    checks.CHECKS["C01"] = dict(jobs=[run.Job("probe", "p_" + n, [{}], labels=[], steps=20000000) for n in sys.argv[2:]], assumptions=[])
    sys.argv = ["run.py", "C01", "--noevidence"]; run.main(); sys.exit()
p = subprocess.run([sys.executable, __file__, "--run"] + (sys.argv[1:] or names), env=dict(os.environ, TG_OUT="/tmp/probe_out"))
