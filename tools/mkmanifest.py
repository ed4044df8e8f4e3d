#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and checks.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
NA = {}
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 run.py {i} --tier quick", thorough_cmd=f"python3 run.py {i} --tier thorough", evidence_file=f"evidence/{i}.json",
            technique="bounded symbolic execution of the LLVM IR of /repo with Z3 (counterexamples replayed natively under ASan/UBSan)", level="model_checking",
            level_note="Holds for every value within the bounds of each job: " + "; ".join(j.desc for j in c["jobs"]) + ". Bounds are printed in the evidence. Trusted: the executor in engine/, Z3, the libstdc++/libc models in rt/ (compared with the real library on sampled paths), clang -O1." + (" " + " ".join(c["assumptions"]) if c["assumptions"] else "")))
    else: m["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check yet")))
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
