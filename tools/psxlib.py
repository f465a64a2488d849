# Build and run machinery shared by every check.
import hashlib, json, os, re, subprocess, sys, shutil, time, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PSX_REPO", "/repo")
LIB = REPO + "/src/pe_lib"
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
HARN = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 4
BCFLAGS = ("-std=c++0x -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -gline-tables-only -fno-strict-aliasing -fwrapv "
           "-fno-delete-null-pointer-checks -fno-threadsafe-statics -fno-access-control -fno-pic -w -Xclang -disable-lifetime-markers").split()
HFLAGS = [f for f in BCFLAGS if not f.startswith("-std=")] + ["-std=c++11", "-I" + LIB, "-I" + HARN]
NATFLAGS = "-std=c++11 -g1 -O0 -fno-strict-aliasing -w -D_GLIBCXX_ASSERTIONS -fsanitize=address -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern -fno-access-control".split()

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def _compile(src, comp, flags, ext, extra=""):
    """compile src with content-hash caching (hash of the preprocessed text and flags)"""
    pp = sh([comp] + [f for f in flags if f not in ("-emit-llvm",)] + ["-E", "-P" if False else "-E", src])
    if pp.returncode: raise RuntimeError("cannot preprocess %s:\n%s" % (src, pp.stderr[-2000:]))
    h = hashlib.sha256((pp.stdout + "\0" + " ".join(flags) + comp + extra).encode()).hexdigest()[:32]
    out = os.path.join(CACHE, h + ext)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh([comp] + flags + ["-c", src, "-o", tmp])
        if r.returncode: raise RuntimeError("cannot compile %s:\n%s" % (src, r.stderr[-3000:]))
        os.replace(tmp, out)
    return out

def lib_sources(): return sorted(os.path.join(LIB, f) for f in os.listdir(LIB) if f.endswith(".cpp"))

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-j%d" % NCPU, "-C", os.path.join(VERIF, "engine"), "OUT=" + BUILD])
        if r.returncode: raise RuntimeError("engine build failed:\n" + r.stdout + r.stderr)

def build_bc(harness_srcs, extra=()):
    """bitcode module of the library, the runtime models and the harness"""
    jobs = [(s, BCFLAGS + ["-emit-llvm"] + list(extra)) for s in lib_sources()]
    jobs.append((os.path.join(VERIF, "runtime", "runtime.cpp"), HFLAGS + ["-emit-llvm"] + list(extra)))
    for s in harness_srcs: jobs.append((os.path.join(HARN, s), HFLAGS + ["-emit-llvm"] + list(extra)))
    with ThreadPoolExecutor(NCPU) as ex: objs = list(ex.map(lambda j: _compile(j[0], "clang++", j[1], ".bc"), jobs))
    h = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:32]
    out = os.path.join(CACHE, h + ".linked.bc")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh(["llvm-link-18"] + objs + ["-o", tmp])
        if r.returncode: raise RuntimeError("llvm-link failed:\n" + r.stderr[-3000:])
        os.replace(tmp, out)
    return out

def build_native(harness_srcs, extra=()):
    """native replay build: the real library, clang++ (same argument evaluation order as the encoded bitcode), AddressSanitizer"""
    flags = NATFLAGS + ["-I" + LIB, "-I" + HARN] + list(extra)
    jobs = [(s, flags) for s in lib_sources()]
    for s in harness_srcs: jobs.append((os.path.join(HARN, s), flags))
    jobs.append((os.path.join(HARN, "native.cpp"), flags))
    with ThreadPoolExecutor(NCPU) as ex: objs = list(ex.map(lambda j: _compile(j[0], "clang++", j[1], ".o"), jobs))
    h = hashlib.sha256((" ".join(objs)).encode()).hexdigest()[:32]
    out = os.path.join(CACHE, h + ".native")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh(["clang++", "-fsanitize=address", "-rdynamic"] + objs + ["-o", tmp, "-ldl"])
        if r.returncode: raise RuntimeError("native link failed:\n" + r.stderr[-3000:])
        os.replace(tmp, out)
    return out

def write_input(path, inputs, head=()):
    with open(path, "w") as f:
        for h in head: f.write("# " + h.replace("\n", " ") + "\n")
        for n, h in inputs: f.write("%s %s\n" % (n, h))

def run_native(exe, entry, inp, timeout=30, verbose=False):
    env = dict(os.environ, PSX_INPUT=inp, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=2048:malloc_fill_byte=190:max_malloc_fill_size=67108864", LC_ALL="C.UTF-8")
    if verbose: env["PSX_VERBOSE"] = "1"
    try:
        r = subprocess.run([exe, entry], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stderr or b"").decode("utf-8", "replace")

def classify(rc, err):
    if rc == "timeout": return "hang"
    if rc == 77: return "assert: " + (re.search(r"PSX-ASSERT-FAILED: (.*)", err) or [None, "?"])[1]
    if rc == 78: return "uncaught exception"
    if rc == 99: return "sanitizer: " + (re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err) or [None, "?"])[1][:120]
    if isinstance(rc, int) and rc != 0: return "crash: exit %d" % rc
    return None

def run_psx(bc, entry, time_s, workers=NCPU, opts=(), cov=False, trace=False):
    out = os.path.join(BUILD, "run.%d.%s.jsonl" % (os.getpid(), entry))
    if os.path.exists(out): os.remove(out)
    cmd = [os.path.join(BUILD, "psx"), bc, "--entry", entry, "--time", str(time_s), "--workers", str(workers), "--out", out] + list(opts)
    if cov: cmd += ["--cov"]
    if trace: cmd += ["--trace"]
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o, _ = p.communicate(timeout=time_s + 60)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, _ = p.communicate()
    res = {"entry": entry, "rc": p.returncode, "log": o, "wall": time.time() - t0, "errors": [], "reach": {}, "unsup": {}, "bounded": {}, "funcs": set(), "stats": {}, "cov": {}, "paths_list": [], "procs": 0}
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try: d = json.loads(line)
            except ValueError: continue
            t = d["t"]
            if t == "error": res["errors"].append(d)
            elif t == "stats":
                res["procs"] += 1
                for k, v in d.items():
                    if k == "t": continue
                    if k in ("maxQuery", "time", "timedOut"): res["stats"][k] = max(res["stats"].get(k, 0), v)
                    else: res["stats"][k] = res["stats"].get(k, 0) + v
            elif t in ("reach", "unsup", "bounded"): res[t][d["id"]] = res[t].get(d["id"], 0) + d["n"]
            elif t == "func": res["funcs"].add(d["name"])
            elif t == "cov":
                c = res["cov"].setdefault(d["file"], [set(), set()]); c[0].update(d["hit"]); c[1].update(d["miss"])
            elif t == "path": res["paths_list"].append((d["inputs"], d.get("reach", [])))
        os.remove(out)
    res["exhausted"] = bool(res["stats"]) and not res["stats"].get("timedOut") and not res["stats"].get("unsup") and not res["stats"].get("unknown") and res["rc"] == 0
    return res
