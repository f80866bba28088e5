#!/usr/bin/env python3
"""mutate.py [-j N] [-n MAX] [-s SEED] [-t SECONDS] [-o OUT] FILE...: small changes to lines of /repo files, one at a time, and which of them no check sees.

For strengthening the checks; not one of them. Works in /tmp/mt only. Prints the changes that survived a short exploration and the existing tests."""
import argparse, concurrent.futures, glob, json, os, random, re, shutil, subprocess, sys, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
SIM = HERE + "/sim"; REPO = "/repo"; T = "/tmp/mt"
from props import PROPS
MAP = [("system/log", "C01 C02 C03 C04"), ("filesystem/", "C09 C10 C11 C05 C21"), ("file_resource_cache", "C05 C06"), ("memoize", "C07 C21"), ("thread/", "C08"),
  ("serialization/container_io", "C13 C16 C21"), ("serialization/", "C12 C13 C14 C21"), ("container/prop_node", "C19 C12 C15 C20 C14"), ("system/settings", "C15 C21"),
  ("container/table", "C19 C16"), ("container/storage", "C19 C16"), ("debug_storage", "C16"), ("container/", "C19"), ("time/", "C17 C21"), ("profiler", "C20 C21"), ("test_case", "C18"),
  ("string/", "C12 C16 C21 C15 C17 C13"), ("error_code", "C10 C13 C21"), ("handle", "C19"), ("random", "C21"), ("numerical/", "C24"), ("cached_var", "C24"), ("factory", "C21"), ("system_tools", "C02 C21"), ("pointer_types", "C19"), ("shape", "C21"), ("", "C21")]
def props_of(f):
    for k, p in MAP:
        if k in f: return p.split()
SWAPS = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), (" + 1", ""), (" - 1", ""), (" + ", " - "),
  (" - ", " + "), ("true", "false"), ("false", "true"), ("++", "--"), ("unique_lock", "shared_lock"), ("thread_local ", ""), ("( 0 )", "( 1 )"), (" 0", " 1"), (" 1", " 2"), (".front()", ".back()"), (".back()", ".front()"), (".begin()", ".end()"), (" += ", " = "), ("break;", ";"), ("continue;", ";"), ("!", "")]
def mutants(f):
    L = open(REPO + "/" + f, encoding="latin-1", newline="").read().split("\n"); out = []; skip = 0; cm = False
    for i, l in enumerate(L):
        s = l.strip()
        if skip:
            if re.match(r"#\s*if", s): skip += 1
            elif re.match(r"#\s*endif", s) or (skip == 1 and re.match(r"#\s*else", s)): skip -= 1
        elif re.match(r"#\s*if.*(MSVC|WINDOWS|_WIN)", s): skip = 1
        if "/*" in s: cm = True
        if "*/" in s: cm = False
        if skip or cm or not s or s[0] == "#" or s.startswith("//") or s.startswith("template") or "static_assert" in s or "xo_assert" in s: continue
        code = l.split("//")[0] if '"' not in l else l
        for a, b in SWAPS:
            for m in re.finditer(re.escape(a), code):
                if a == "!" and code[m.end():m.end() + 1] == "=": continue
                if a in ("true", "false") and (code[m.start() - 1:m.start()].isalnum() or code[m.end():m.end() + 1].isalnum()): continue
                if a in (" 0", " 1") and code[m.end():m.end() + 1] not in " ;),": continue
                out.append((f, i, l[:m.start()] + b + l[m.end():]))
        m = re.search(r"\bif ?\( (.*) \)", code)
        if m and "constexpr" not in code and ";" not in m.group(1) and code[m.start():m.end()].count("(") == code[m.start():m.end()].count(")"):
            out.append((f, i, code[:m.start(1)] + "!( " + m.group(1) + " )" + l[m.end(1):])); out.append((f, i, code[:m.start(1)] + "false && ( " + m.group(1) + " )" + l[m.end(1):]))
        if re.match(r"\s*(if ?\(.*\) |else )?[A-Za-z_:.\->\[\]]+(\( .*\)|\(\)| [-+]?= .*| << .*|\+\+|--)( .*)?;\s*$", code) and not re.match(r"\s*(return|using|throw|typedef|else return|delete)\b", code) and "{" not in code:
            out.append((f, i, re.match(r"\s*", l).group(0) + ";"))
        elif re.search(r"(scoped_lock|unique_lock|shared_lock)\b.*;\s*$", s): out.append((f, i, ";"))
        if "::move( " in code: out.append((f, i, re.sub(r"std::move\( (\w+) \)", r"\1", l, 1)))
    return [o for o in dict.fromkeys(out) if o[2] != L[o[1]]]
def run(c, t=600, **k):
    try: return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **k)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(c, 99, str(e.stdout))
F = ["-std=c++17", "-O1", "-g1", "-fno-pie", "-fsanitize=thread", "-include", SIM + "/inst.h", "-I" + SIM, "-w", "-MMD"]
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("-j", type=int, default=8); ap.add_argument("-n", type=int, default=100); ap.add_argument("-s", type=int, default=1); ap.add_argument("-t", type=int, default=8); ap.add_argument("-o", default="/tmp/mt/out.txt"); ap.add_argument("files", nargs="+")
    A = ap.parse_args(); shutil.rmtree(T, ignore_errors=True); os.makedirs(T + "/base")
    W = []
    for i in range(A.j):
        w = T + "/w%d" % i; os.makedirs(w); run(["cp", "-a", REPO + "/xo", REPO + "/contrib", REPO + "/xo_test", w]); W.append(w)
    # base objects, with paths relative to the worker
    srcs = sorted(glob.glob(W[0] + "/xo/*/*.cpp")); tests = sorted(glob.glob(W[0] + "/xo_test/*.cpp")); need = sorted({x for f in A.files for p in props_of(f) for x in PROPS[p]["scn"]})
    jobs = [(["g++"] + F + ["-I.", "-c", os.path.relpath(s, W[0])], "s_" + os.path.basename(s) + ".o") for s in srcs] + [(["g++"] + F + ["-I.", "-c", SIM + "/" + s + ".cpp"], s + ".o") for s in need]
    jobs += [(["g++", "-std=c++17", "-O1", "-w", "-MMD", "-I.", "-c", os.path.relpath(s, W[0])], "t_" + os.path.basename(s) + ".o") for s in srcs + tests]
    jobs += [(["g++", "-std=c++17", "-O2", "-g1", "-fno-pie", "-w", "-MMD", "-c", SIM + "/" + s + ".cpp"], "z_" + s + ".o") for s in ("rt", "vfs", "main")] + [(["gcc", "-O2", "-g1", "-fexceptions", "-fno-pie", "-fno-builtin", "-w", "-MMD", "-c", SIM + "/shim.c"], "z_shim.o")]
    B = T + "/base/"
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for j, r in zip(jobs, ex.map(lambda j: run(j[0] + ["-o", B + j[1]], cwd=W[0]), jobs)):
            if r.returncode: sys.exit(" ".join(j[0]) + r.stdout[-2000:])
    deps = {o: set(os.path.normpath(x) for x in open(B + o[:-2] + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()) for _, o in jobs}
    cmds = {o: c for c, o in jobs}
    known = [l.split() for l in open(HERE + "/KNOWN_FINDINGS") if l.startswith("KNOWN-FINDING")] if os.path.exists(HERE + "/KNOWN_FINDINGS") else []
    os.environ.setdefault("XOSIM_REPO", REPO); sys.argv = ["check.py"]
    src = open(HERE + "/check.py").read().rsplit("\nmain()", 1)[0]; ns = {"__file__": HERE + "/check.py", "__name__": "c"}; exec(compile(src, "check.py", "exec"), ns)
    M = [m for f in A.files for m in mutants(f)]; random.Random(A.s).shuffle(M); tot = len(M); M = M[:A.n]; print(tot, "mutants, trying", len(M), flush=True)
    base_pass = json.load(open("/opt/vp/BASELINE.json"))["stable"]; free = W[:]; lock = threading.Lock(); cnt = {}
    outf = open(A.o, "a")
    def one(m):
        with lock: w = free.pop()
        try:
            f, i, new = m; p = w + "/" + f; keep = open(p, "rb").read(); L = keep.decode("latin-1").split("\n"); old = L[i]; L[i] = new + ("\r" if old.endswith("\r") and not new.endswith("\r") else "")
            open(p, "wb").write("\n".join(L).encode("latin-1")); O = w + "/o/"; shutil.rmtree(O, ignore_errors=True); os.makedirs(O)
            res = "survived"
            try:
                def build(os_, exe, pre, post):
                    objs = []
                    for o in os_:
                        if os.path.normpath(f) in deps[o]:
                            r = run(cmds[o] + ["-o", O + o], cwd=w)
                            if r.returncode: return False
                            objs.append(O + o)
                        else: objs.append(B + o)
                    return run(pre + objs + post + ["-o", exe], cwd=w).returncode == 0
                ps = props_of(f); byscn = {}
                for q in ps: byscn.setdefault(tuple(PROPS[q]["scn"]), []).append(q)
                so = ["s_" + os.path.basename(s) + ".o" for s in srcs]
                for scn, qs in byscn.items():
                    if res != "survived": break
                    if not build(so + [s + ".o" for s in scn] + ["z_rt.o", "z_vfs.o", "z_main.o", "z_shim.o"], O + "sim", ["g++", "-no-pie", "-Wl,-z,now"], ["-ldl", "-lpthread"]): res = "nocompile"; break
                    for q in qs:
                        d = O + q; os.makedirs(d); kn = ns["known"](q)
                        r = run([O + "sim", "explore", "--base", "1", "--first", "0", "--step", "1", "--count", "10000000", "--tmax", str(A.t), "--out", d, "--scn", q, "--hashes", "0"], t=A.t + 120, env=dict(os.environ, XOSIM_CPU="-1"))
                        if r.returncode: res = "killed " + q + " rc%d" % r.returncode; break
                        for v in (json.loads(l) for x in glob.glob(d + "/viol.*") for l in open(x)):
                            if not [k for k in kn if k["scenario"] == v["scenario"] and k["class"] == v["class"]]: res = "killed " + q + " " + v["class"]; break
                        if res != "survived": break
                if res == "survived":
                    if not build(["t_" + os.path.basename(s) + ".o" for s in srcs + tests], O + "test", ["g++"], ["-lpthread"]): res = "notest"
                    else:
                        os.makedirs(O + "r"); r = run([O + "test"], t=120, cwd=O + "r", env=dict(os.environ, TMP=O + "r", TMPDIR=O + "r")); ok = set(re.findall(r"PASSED: (\S+) \(", r.stdout))
                        if any(s.split("::")[-1] not in ok and s not in ok for s in base_pass): res = "tests"
            finally: open(p, "wb").write(keep)
            with lock:
                cnt[res.split()[0]] = cnt.get(res.split()[0], 0) + 1
                outf.write("%s\t%s:%d\n\t- %s\n\t+ %s\n" % (res, f, i + 1, old.strip(), new.strip())); outf.flush()
        finally:
            with lock: free.append(w)
    with concurrent.futures.ThreadPoolExecutor(A.j) as ex:
        for x in [ex.submit(one, m) for m in M]: x.result()
    print(cnt); shutil.rmtree(T + "/base"); [shutil.rmtree(w) for w in W]
main()
