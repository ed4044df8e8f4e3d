#!/usr/bin/env python3
"""mutation test of the checks: small changes of /repo's sources that build and pass the tests, each against the checks of its file.
usage: mutate.py FILE [STRIDE [OFFSET]]   (file relative to /repo; every STRIDE-th mutant)"""
import os, sys, re, subprocess, shutil, hashlib, time
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H)); sys.path.insert(0, os.path.join(os.path.dirname(H), "seed"))
import plant
ORDER = {"src/po_parser.cpp": "C01 C03 C24 C09 C19 C18 C02 C22 C08 C05 C07 C17 C30 C29", "src/dictionary.cpp": "C06 C05 C07 C08 C16 C18 C29", "src/dictionary_manager.cpp": "C21 C13 C14 C23 C16 C20 C15 C31 C09 C18 C29", "src/iconv.cpp": "C17 C19 C02 C29", "src/language.cpp": "C10 C11 C12 C25 C29",
  "src/plural_forms.cpp": "C04 C29", "src/log.cpp": "C18", "src/log_stream.hpp": "C18", "include/tinygettext/log_stream.hpp": "C18", "include/tinygettext/dictionary.hpp": "C06 C05 C16", "include/tinygettext/language.hpp": "C25 C10", "include/tinygettext/plural_forms.hpp": "C04 C05", "include/tinygettext/iconv.hpp": "C17", "include/tinygettext/dictionary_manager.hpp": "C13 C15", "src/unix_file_system.cpp": "C26 C29"}
def mutants(line):
    code = re.sub(r"//.*", "", line.rstrip("\n")); out = []
    def add(x):
        if x != code: out.append(x)
    def rep(rx, new):
        for m in re.finditer(rx, code):
            q = code[:m.start()].count('"') - code[:m.start()].count('\\"')
            if q % 2 == 0: add(code[:m.start()] + (new(m) if callable(new) else new) + code[m.end():])
    rep(r"(?<=[\w)\]] )<(?= [\w(])", "<="); rep(r"<=", "<"); rep(r"(?<=[\w)\]] )>(?= [\w(])", ">="); rep(r">=", ">"); rep(r"==", "!="); rep(r"!=", "=="); rep(r"&&", "||"); rep(r"\|\|", "&&")
    rep(r"(?<![\w.\"'])\d+(?![\w.\"'x])", lambda m: str(int(m.group()) + 1)); rep(r"(?<![\w.\"'])[1-9]\d*(?![\w.\"'x])", lambda m: str(int(m.group()) - 1)); rep(r"\btrue\b", "false"); rep(r"\bfalse\b", "true"); rep(r"\bbreak;", ";"); rep(r"\bcontinue;", ";"); rep(r"(?<=\()!(?=\w)", "")
    rep(r"(?<=[\w)])\s*\+\s*1\b", ""); rep(r"(?<=[\w)])\s*-\s*1\b", ""); rep(r"\b(if|while)\s*\((?=.*\)\s*\{?$)", lambda m: m.group() + "false && "); rep(r"\bif\s*\((?=.*\)\s*\{?$)", lambda m: m.group() + "true || ")
    rep(r"'(\\?.)'", lambda m: "'#'"); rep(r"\+\+", "--") if "for" not in code else None
    for m in re.finditer(r'"((?:[^"\\]|\\.)+)"', code): add(code[:m.start(1)] + m.group(1)[:-1] + code[m.end(1):]) if not m.group(1).endswith("\\n") and not code.startswith("#") and m.group(1)[-2:-1] != "\\" else None
    s = code.strip()
    if s.endswith(";") and not re.match(r"^(return|std::|const|static|int|bool|unsigned|size_t|throw|using|Language|Dictionary|break|auto|for|delete$|#)", s) and s not in (";", "};") and s.count("(") == s.count(")"): add(re.sub(r"\S.*", ";", code, 1))
    if re.match(r"^\s*(\w+\.clear\(\)|delete\b)", code): add(re.sub(r"\S.*", ";", code, 1))
    return out
def ir(w, f):
    src = f if f.endswith(".cpp") else "src/dictionary_manager.cpp"; outs = []
    for s in ([f] if f.endswith(".cpp") else sorted("src/" + x for x in os.listdir(f"{w}/src") if x.endswith(".cpp"))):
        p = subprocess.run(["clang++-18", "-std=c++17", "-O2", "-S", "-emit-llvm", "-w", "-DNDEBUG" if 0 else "-w", f"-I{w}/include", f"{w}/{s}", "-o", "-"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        if p.returncode: return None
        outs.append("\n".join(l for l in p.stdout.split("\n") if not l.startswith(("source_filename", "; ModuleID"))))
    return hashlib.sha1("".join(outs).encode()).hexdigest()
def one(a):
    f, n, new, slot, base = a; d = f"/tmp/mut/{slot}"; w = f"{d}/repo"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); plant.sh(f"git clone -q /repo {w}", "/tmp")
    L = open(f"{w}/{f}").read().split("\n"); old = L[n]; L[n] = new; open(f"{w}/{f}", "w").write("\n".join(L)); tag = f"{f}:{n+1}: {old.strip()}  =>  {new.strip()}"
    try:
        h = ir(w, f)
        if h is None: return "nobuild  " + tag
        if h == base: return "same     " + tag
        rc, o = plant.sh(f"cmake -S /opt/vp/cmake -B {w}/_b -G Ninja -DREPO={w} -DCMAKE_BUILD_TYPE=Debug && ninja -j3 -C {w}/_b", w)
        if rc: return "nobuild  " + tag
        rc, o = plant.run_tests(w)
        if rc: return "tests    " + tag
        t = time.time(); odd = ""
        for p in ORDER[f].split():
            try: r = subprocess.run(["python3", f"{V}/run.py", p, "--noevidence"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900, env=dict(os.environ, TG_REPO=w, TG_OUT=f"{d}/out", VERIF_TIER="quick"))
            except subprocess.TimeoutExpired: odd += f" [{p} timeout]"; continue
            if r.returncode == 1: return f"{p}      {tag}{odd}"
            if r.returncode: odd += f" [{p} rc={r.returncode} {[l for l in r.stdout.split(chr(10)) if l.strip()][-2:][0][:150]}]"
        return "SURVIVED " + tag + odd + f" ({time.time()-t:.0f}s)"
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    f = sys.argv[1]; stride = int(sys.argv[2]) if len(sys.argv) > 2 else 1; off = int(sys.argv[3]) if len(sys.argv) > 3 else 0; src = open(f"/repo/{f}").read().split("\n"); ms = []; skip = False
    for n, l in enumerate(src):
        if "if ((false))" in l: skip = True
        if skip:
            if l.strip() == "}": skip = False
            continue
        if f.endswith("language.cpp") and re.match(r'^\s*\{ ?"|^\s*// |^\s*language_aliases|^\s*\{ 0', l): continue
        if re.match(r"^\s*(//|#include|/\*|\*)", l) or (l.strip().startswith("//")): continue
        ms += [(f, n, m) for m in mutants(l)]
    ms = ms[off::stride]; base = ir("/repo", f); print(len(ms), "mutants", flush=True); J = int(os.environ.get("J", "2"))
    with ThreadPoolExecutor(J) as P:
        for r in P.map(one, [(f, n, m, f"{os.getpid()}_{i % (J*4)}", base) for i, (f, n, m) in enumerate(ms)]): print(r, flush=True)
