#!/usr/bin/env python3
"""Runner: compiles /repo's current sources to LLVM IR, executes the property's harnesses symbolically
(tgsym + Z3), replays every counterexample and a sample of paths on the native build, writes evidence."""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, glob, re, argparse
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TG_REPO", "/repo")
BUILD = os.path.join(V, "build")
CLANG, LINK, OPT, LCFG = "/usr/bin/clang++-18", "/usr/bin/llvm-link-18", "/usr/bin/opt-18", "/usr/bin/llvm-config-18"
IRFLAGS = ["-std=c++17", "-O1", "-g", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-finite-loops",
           "-ftrivial-auto-var-init=pattern", "-D__NO_CTYPE", "-U_FORTIFY_SOURCE", "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off", "-fno-pic",
           f"-I{REPO}/include", f"-I{V}/rt", f"-I{V}/harness", "-emit-llvm", "-c"]
UBFLAGS = ["-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift,return,unreachable", "-fsanitize-trap=all"]
NATFLAGS = ["-std=c++17", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
            "-D_GLIBCXX_ASSERTIONS", f"-I{REPO}/include", f"-I{V}/rt", f"-I{V}/harness"]
TSANFLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-fsanitize=thread", "-pthread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", f"-I{REPO}/include", f"-I{V}/rt", f"-I{V}/harness"]
TSAN_HARNESSES = {"threads"} # their native build runs the two threads for real, under ThreadSanitizer
CPUS = max(1, min(8, os.cpu_count() or 1))

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return p.returncode, p.stdout

def die(msg, code=2):
    print("ERROR:", msg); sys.stdout.flush(); sys.exit(code)

def digest(files):
    h = hashlib.sha256()
    for f in files: h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def build_engine():
    """engine binary and the runtime's bitcode; these depend on /verif only, and are cached in /verif/build"""
    os.makedirs(BUILD, exist_ok=True)
    srcs = [f"{V}/engine/interp.cpp", f"{V}/engine/expr.cpp", f"{V}/engine/expr.hpp", f"{V}/engine/Makefile"]
    stamp = os.path.join(BUILD, "engine.stamp"); d = digest(srcs)
    if not (os.path.exists(f"{BUILD}/tgsym") and os.path.exists(stamp) and open(stamp).read() == d):
        for f in glob.glob(f"{BUILD}/*.o"): os.remove(f)
        rc, o = sh(["make", "-j2", "-C", f"{V}/engine", f"OUT={BUILD}", f"LLVMCFG={LCFG}"])
        if rc: die("engine build failed\n" + o[-3000:])
        open(stamp, "w").write(d)
    for n in ("rt", "fs"):
        stamp = os.path.join(BUILD, n + ".stamp"); d = digest([f"{V}/rt/{n}.cpp", f"{V}/rt/sv.h"]) + " ".join(IRFLAGS)
        if not (os.path.exists(f"{BUILD}/{n}.bc") and os.path.exists(stamp) and open(stamp).read() == d):
            rc, o = sh([CLANG] + IRFLAGS + ["-fno-access-control", "-fno-builtin", f"{V}/rt/{n}.cpp", "-o", f"{BUILD}/{n}.bc"])
            if rc: die("runtime build failed\n" + o[-3000:])
            open(stamp, "w").write(d)
    rc, o = sh(["llvm-nm-18", "--defined-only", "--format=just-symbols", f"{BUILD}/rt.bc", f"{BUILD}/fs.bc"])
    if rc: die("llvm-nm failed\n" + o[-1000:])
    o = "\n".join(l for l in o.split("\n") if l and not l.startswith("sv_shared_")) + "\n"
    if not os.path.exists(f"{BUILD}/rt.globals") or open(f"{BUILD}/rt.globals").read() != o: open(f"{BUILD}/rt.globals", "w").write(o)

def repo_sources():
    s = sorted(glob.glob(f"{REPO}/src/*.cpp"))
    return s, s

class Job:
    def __init__(self, harness, entry, quick, thorough=None, labels=(), opts=(), steps=None, t=None, desc=""):
        self.harness, self.entry, self.quick, self.thorough = harness, entry, quick, thorough or []
        self.labels, self.opts, self.steps, self.t, self.desc = list(labels), list(opts), steps, t, desc

class Run:
    def __init__(self, prop, tier, work):
        self.prop, self.tier, self.work = prop, tier, work
        self.bc, self.native = {}, {}
    def compile_repo(self, harnesses):
        w = self.work; srcs, allsrcs = repo_sources(); self.tsan = bool(harnesses) and set(harnesses) <= TSAN_HARNESSES
        jobs = [("ir", f, f"{w}/{os.path.basename(f)}.bc") for f in srcs] + [("irh", f"{V}/harness/{h}.cpp", f"{w}/h_{h}.bc") for h in harnesses] \
             + [("nat", f, f"{w}/{os.path.basename(f)}.o") for f in allsrcs] + [("nat", f"{V}/harness/{h}.cpp", f"{w}/h_{h}.o") for h in harnesses] + [("nat", f"{V}/rt/sv_native.cpp", f"{w}/sv_native.o")] \
             + [("nat", f"{V}/rt/sv_locale.cpp", f"{w}/sv_locale.o") for h in harnesses if h == "locale"]
        def one(j):
            k, s, o = j
            if k == "ir": return sh([CLANG] + IRFLAGS + UBFLAGS + [s, "-o", o])
            if k == "irh": return sh([CLANG] + IRFLAGS + [s, "-o", o])
            return sh(["g++"] + (TSANFLAGS if self.tsan else NATFLAGS) + ["-c", s, "-o", o])
        ir = [j for j in jobs if j[0] != "nat"]; nat = [j for j in jobs if j[0] == "nat"]
        self.pool = ThreadPoolExecutor(CPUS)
        fi = [self.pool.submit(one, j) for j in ir]; self.fn = [(j, self.pool.submit(one, j)) for j in nat]
        for j, f in zip(ir, fi):
            rc, o = f.result()
            if rc: die(f"cannot compile {j[1]}\n{o[-3000:]}")
        self.allsrcs = allsrcs; self.srcs = srcs
    def link_native(self, h):
        if h in self.native: return self.native[h]
        for j, f in self.fn:
            rc, o = f.result()
            if rc: die(f"cannot compile natively {j[1]}\n{o[-3000:]}")
        out = f"{self.work}/nat_{h}"; w = self.work
        rc, o = sh(["g++"] + (["-fsanitize=thread", "-pthread"] if self.tsan else ["-fsanitize=address,undefined"]) + [ "-rdynamic", "-o", out, f"{w}/h_{h}.o", f"{w}/sv_native.o"] + ([f"{w}/sv_locale.o"] if h == "locale" else []) + [f"{w}/{os.path.basename(f)}.o" for f in self.allsrcs] + ["-ldl"])
        if rc: die("native link failed\n" + o[-3000:])
        self.native[h] = out; return out
    def link_ir(self, h, entries):
        if h in self.bc: return self.bc[h]
        w = self.work; out = f"{w}/{h}.bc"
        rc, o = sh([LINK, f"{BUILD}/rt.bc", f"{BUILD}/fs.bc", f"{w}/h_{h}.bc"] + [f"{w}/{os.path.basename(f)}.bc" for f in self.srcs] + ["-o", f"{w}/all_{h}.bc"])
        if rc: die("IR link failed\n" + o[-3000:])
        rc, o = sh([OPT, "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries), f"{w}/all_{h}.bc", "-o", out])
        if rc: die("opt failed\n" + o[-3000:])
        os.remove(f"{w}/all_{h}.bc"); self.bc[h] = out; return out

def input_file(path, entry, params, inputs):
    with open(path, "w") as f:
        f.write(f"ENTRY {entry}\n")
        for k, v in params.items(): f.write(f"PARAM {k} {v}\n")
        for i in inputs: f.write(f"IN {i['name'].replace(' ', '_') or '_'} {i['width']} {len(i['values'])} {' '.join(map(str, i['values']))}\n")

def native_run(exe, inp, cpu=10, tsan=False):
    for i in range(8 if tsan else 1): # a race shows in some schedules only
        r = native_once(exe, inp, cpu, i)
        if r["kind"] != "done": break
    return r

def native_once(exe, inp, cpu=10, rounds=0):
    env = dict(os.environ, TGSYM_ROUNDS=str(rounds * 100), TSAN_OPTIONS="exitcode=79:halt_on_error=1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:hard_rss_limit_mb=3000:allocator_may_return_null=0:malloc_context_size=5", UBSAN_OPTIONS="print_stacktrace=0:exitcode=78", LC_ALL="C", TGSYM_SCRATCH=os.path.dirname(os.path.dirname(inp)))
    try:
        p = subprocess.run([exe, inp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=cpu, env=env)
    except subprocess.TimeoutExpired as e:
        return dict(kind="hang", rc=None, out="", err="", obs=None)
    o = p.stdout; kind = "crash"
    if p.returncode == 0 and "\nDONE" in "\n" + o: kind = "done"
    elif p.returncode == 10: kind = "fail"
    elif p.returncode == 11: kind = "assume"
    elif p.returncode == 12: kind = "mismatch"
    elif p.returncode == 13: kind = "uncaught"
    elif p.returncode == 2: kind = "harness-error"
    elif "hard rss limit" in p.stderr or "out of memory" in p.stderr or "requested allocation size" in p.stderr or "allocation-size-too-big" in p.stderr: kind = "hang"
    obs = None
    m = re.search(r"^OBS ?(.*)$", o, re.M)
    if m: obs = [int(x) for x in m.group(1).split(",") if x != ""]
    return dict(kind=kind, rc=p.returncode, out=o[-2000:], err=p.stderr[:1500], obs=obs)

def confirmed(kind, r):
    if kind == "property": return r["kind"] in ("fail", "crash", "uncaught", "hang")
    if kind == "nontermination": return r["kind"] in ("hang", "crash")
    return r["kind"] in ("crash", "uncaught", "fail", "hang")

def printable(inputs, limit=60):
    out = []
    for i in inputs:
        v = i["values"]
        if i["width"] == 8 and len(v) != 1: out.append(f"{i['name']}=" + repr(bytes(v[:limit]))[1:])
        else: out.append(f"{i['name']}=" + ",".join(map(str, v)))
    return "; ".join(out)

def load_known():
    p = f"{V}/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop", nargs="?"); ap.add_argument("--tier"); ap.add_argument("--setup", action="store_true"); ap.add_argument("--replay")
    ap.add_argument("--only"); ap.add_argument("--keep", action="store_true"); ap.add_argument("-v", action="store_true"); ap.add_argument("--noevidence", action="store_true"); ap.add_argument("-p", action="append", default=[])
    a = ap.parse_args()
    if a.setup: build_engine(); print("engine ready"); return
    if a.replay: return replay(a.replay)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, V); import checks
    if a.prop not in checks.CHECKS: die("unknown property " + str(a.prop))
    spec = checks.CHECKS[a.prop]; t0 = time.time()
    build_engine()
    work = tempfile.mkdtemp(prefix=f"tgsym_{a.prop}_")
    try: rc = check(a, spec, tier, seed, work, t0)
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
        else: print("work dir", work)
    sys.stdout.flush(); sys.exit(rc)

def replay(path):
    r = json.load(open(path)); build_engine(); work = tempfile.mkdtemp(prefix="tgsym_replay_")
    try:
        R = Run(r["property"], "quick", work); R.compile_repo([r["harness"]]); exe = R.link_native(r["harness"])
        inp = f"{work}/in.txt"; input_file(inp, r["entry"], r["params"], r["inputs"]); n = native_run(exe, inp, tsan=R.tsan)
        print(json.dumps(n, indent=1)); ok = confirmed(r["kind"], n); print("reproduced" if ok else "not reproduced"); sys.exit(1 if ok else 0)
    finally: shutil.rmtree(work, ignore_errors=True)

def check(a, spec, tier, seed, work, t0):
    prop = a.prop; jobs = [j for j in spec["jobs"] if not a.only or j.entry == a.only]
    R = Run(prop, tier, work); R.compile_repo(sorted({j.harness for j in jobs}))
    byh = {}
    for j in spec["jobs"]: byh.setdefault(j.harness, []).append(j.entry)
    outdir = os.environ.get("TG_OUT", f"{V}/out/{prop}"); shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir, exist_ok=True)
    known = load_known(); total_budget = 560 if tier == "quick" else float(os.environ.get("TG_BUDGET", "3600"))
    S = dict(states=0, transitions=0, paths=0, assumed=0, queries=0, sat=0, unsat=0, unknown=0, cache=0, solver=0.0, obligations=0, obl_const=0, validated=0, audits=0, cross=0)
    per, samples, funcs, lines, problems, knownhits = [], [], set(), {}, [], set()
    status = 0; noanswer = False
    for j in jobs:
        plan = list(j.quick)
        if tier == "thorough": plan = plan + list(j.thorough)
        bc = R.link_ir(j.harness, sorted(set(byh[j.harness])))
        done_any = False
        for ti, params in enumerate(plan):
            if done_any and time.time() - t0 > total_budget: problems.append(f"{j.entry}: budget spent before bound {params}"); break
            params = dict(params)
            for x in a.p: k, v = x.split("="); params[k] = int(v)
            od = f"{work}/o_{j.entry}_{ti}"; os.makedirs(od)
            left = max(30, total_budget - (time.time() - t0)); tl = min(j.t or (300 if tier == "quick" else 1500), left)
            opts = ["-notable"] + list(j.opts)
            if tier == "thorough": opts += ["-dump", "200"]
            cmd = [f"{BUILD}/tgsym", bc, "-e", j.entry, "-o", od, "-t", str(tl), "-j", str(CPUS), "-repo", REPO + "/", "-rtglobals", f"{BUILD}/rt.globals", "-samples", os.environ.get("TG_SAMPLES", "24"), "-maxviol", "6"] + opts
            if j.steps: cmd += ["-steps", str(j.steps)]
            for k, v in params.items(): cmd += ["-p", f"{k}={v}"]
            try: rc, o = sh(["bash", "-c", "ulimit -s 1000000 2>/dev/null || ulimit -s unlimited 2>/dev/null; exec \"$@\"", "x"] + cmd, timeout=tl + 120)
            except subprocess.TimeoutExpired: problems.append(f"{j.entry}: engine did not stop"); status = 2; break
            if not os.path.exists(f"{od}/result.json"): problems.append(f"{j.entry}: engine failed rc={rc} {o[-500:]}"); status = 2; break
            r = json.load(open(f"{od}/result.json"))
            if a.v: print(j.entry, params, {k: v for k, v in r.items() if k not in ("repo_lines", "repo_functions")}, o[-800:])
            # counterexamples
            newviol = []; unconf = []
            def rep(f):
                v = json.load(open(f)); inp = f + ".txt"; input_file(inp, j.entry, params, v["inputs"])
                return f, v, native_run(R.link_native(j.harness), inp, tsan=R.tsan)
            vf = sorted(glob.glob(f"{od}/violation_*.json"))
            if vf: R.link_native(j.harness)
            with ThreadPoolExecutor(CPUS) as P: reps = list(P.map(rep, vf))
            for f, v, n in reps:
                desc = f"{v['kind']}: {v['message']} [{printable(v['inputs'])}]"
                if not confirmed(v["kind"], n): unconf.append((desc, v, n)); continue
                k = next((k for k in known["findings"] if k["property"] == prop and k["entry"] == j.entry and re.search(k["match"], desc)), None)
                if k: knownhits.add(k["what"]); continue
                rp = f"{outdir}/{j.entry}_{os.path.basename(f)}"
                json.dump(dict(property=prop, harness=j.harness, entry=j.entry, params=params, kind=v["kind"], message=v["message"], where=v["where"], inputs=v["inputs"], native=n, how=f"python3 run.py --replay {rp}"), open(rp, "w"), indent=1)
                newviol.append((rp, desc, v, n))
            if newviol:
                for rp, desc, v, n in newviol[:6]:
                    print(f"VIOLATION property={prop} replay={rp}"); print(f"  {j.entry} {params} {desc}\n  at {v['where'][:300]}\n  native: {n['kind']} rc={n['rc']} {n['out'].strip()[-200:]} {n['err'][:200]}")
                status = 1; break
            if unconf: 
                for desc, v, n in unconf[:3]: print(f"UNCONFIRMED {j.entry} {params} {desc}\n  at {v['where'][:400]}\n  native: {n}")
                problems.append(f"{j.entry}: {len(unconf)} counterexample(s) did not reproduce natively"); status = 2; break
            if r["unsupported"]: problems.append(f"{j.entry} {params}: unsupported: {r['unsupported_msg']}"); status = 2; break
            if not r["complete"]:
                problems.append(f"{j.entry}: bound {params} not completed in {tl:.0f}s (not claimed)")
                if not done_any: status = 2
                break
            # vacuity, translation validation
            miss = [l for l in j.labels if not r["labels"].get(l)]
            if miss: problems.append(f"{j.entry} {params}: vacuous, never reached {miss}"); status = 2; break
            if r["obligations"] == 0: problems.append(f"{j.entry}: no obligation reached"); status = 2; break
            bad = 0; sf = sorted(glob.glob(f"{od}/sample_*.json")); exe = R.link_native(j.harness)
            def val(f):
                s = json.load(open(f)); inp = f + ".txt"; input_file(inp, j.entry, params, s["inputs"]); return s, native_run(exe, inp, 60)
            with ThreadPoolExecutor(CPUS) as P: res = list(P.map(val, sf))
            for s, n in res:
                if n["kind"] == "done" and n["obs"] == s["obs"]: S["validated"] += 1
                else:
                    bad += 1
                    if bad <= 2: print(f"ENCODING MISMATCH {j.entry} {params} {printable(s['inputs'])}: native {n['kind']} {n['obs']} {n['out'][-300:]} {n['err'][:300]} symbolic {s['obs']}")
            if bad: problems.append(f"{j.entry}: {bad} sampled paths behave differently natively"); status = 2; break
            if tier == "thorough":
                nc, dis = crosscheck(od, problems); S["cross"] += nc
                if dis: status = 2; break
            done_any = True
            S["states"] += r["forks"] + 1; S["transitions"] += r["instructions"]; S["paths"] += r["paths"]; S["assumed"] += r["assumed_away"]
            for k, x in (("queries", "queries"), ("sat", "sat"), ("unsat", "unsat"), ("unknown", "unknown"), ("cache", "cache_hits"), ("solver", "solver_s"), ("obligations", "obligations"), ("obl_const", "obligations_path_decided"), ("audits", "audits")): S[k] += r[x]
            funcs.update(re.sub(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string", f) for f in r["repo_functions"] if "tinygettext" in f)
            for f, l in r["repo_lines"].items(): lines.setdefault(f, set()).update(l)
            per.append(dict(entry=j.entry, what=j.desc, bounds=params, paths=r["paths"], assumed_away=r["assumed_away"], obligations=r["obligations"], queries=r["queries"], solver_s=r["solver_s"], max_symbolic_vars=r["max_vars"], longest_path_instructions=r["max_path_steps"], wall_s=r["wall_s"], labels=r["labels"]))
            for s, n in res[::max(1, len(res) // 3)][:3]: samples.append(f"{j.entry}: {printable(s['inputs'])}")
            shutil.rmtree(od, ignore_errors=True)
        if status == 1: break
        if status == 2: noanswer = True; status = 0
    if noanswer and not status: status = 2
    for k in sorted(knownhits): print(f"KNOWN-FINDING: property={prop} {k}")
    wall = time.time() - t0
    for p in problems: print("NOTE:", p)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=1 if status == 1 else 0,
        coverage=dict(states=S["states"], transitions=S["transitions"], traces_validated_against_impl=S["validated"], samples=samples[:20],
            method="bounded symbolic execution of the LLVM IR of /repo's current sources; every branch on symbolic data and every assertion is decided by Z3 over all values within the bounds",
            states_are="symbolic execution states (one per feasible branch outcome)", transitions_are="IR instructions executed symbolically",
            feasible_paths=S["paths"], paths_cut_by_assumptions=S["assumed"], obligations=S["obligations"], obligations_constant_on_their_path=S["obl_const"],
            solver="z3", solver_queries=S["queries"], solver_sat=S["sat"], solver_unsat=S["unsat"], solver_unknown=S["unknown"], queries_answered_from_cache_of_solved_queries=S["cache"], solver_time_s=round(S["solver"], 3), queries_cross_checked_with_cvc5=S["cross"],
            functions_encoded=sorted(funcs), source_lines_executed={f: len(l) for f, l in lines.items()}, jobs=per, notes=problems, exhaustive=False),
        assumptions=spec.get("assumptions", []) + checks_common())
    if not a.noevidence:
        os.makedirs(f"{V}/evidence", exist_ok=True)
        json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    if status == 0: print(f"OK property={prop} tier={tier} jobs={len(per)} paths={S['paths']} obligations={S['obligations']} queries={S['queries']} solver={S['solver']:.1f}s native-validated={S['validated']} wall={wall:.1f}s")
    elif status == 2: print(f"NO ANSWER property={prop}")
    return status

def checks_common():
    return ["bounds are those listed per job; nothing is claimed outside them", "libstdc++.so/libc functions are replaced by the models in rt/rt.cpp (checked against the real library on the sampled paths)",
            "C locale except in the jobs of C32; memory allocation never fails; one thread at a time except in the jobs of C29", "/repo compiled by clang 18 -O1 to IR; the IR, not the machine code, is what is executed"]

def crosscheck(od, problems):
    """second solver on dumped queries"""
    n = dis = 0; fs = sorted(glob.glob(f"{od}/*.smt2"))[:40]
    with ThreadPoolExecutor(CPUS) as P: res = list(P.map(lambda f: sh(["cvc5", "--tlimit=20000", f])[1], fs))
    for f, o in zip(fs, res):
        want = os.path.basename(f)[:-5].split("_")[-1]
        got = o.strip().split("\n")[-1] if o.strip() else ""
        if got in ("sat", "unsat"):
            n += 1
            if want in ("sat", "unsat") and got != want: dis += 1; problems.append(f"solvers disagree on {os.path.basename(f)}: z3 {want}, cvc5 {got}")
    return n, dis

if __name__ == "__main__": main()
