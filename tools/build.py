#!/usr/bin/env python3
"""Content-addressed build of the simulation harnesses from /repo's working tree.

Objects are cached by the hash of the command line and of every file the
compiler read (never by time stamps)."""
import glob, hashlib, json, os, subprocess, sys, fnmatch
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
COMMON = ["-std=c++14", "-O1", "-g1", "-w", "-pipe", "-fno-strict-aliasing", "-DKENLM_MAX_ORDER=6", "-DHAVE_CONFIG_H"]
TSAN = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
INC = lambda: ["-I" + os.path.join(OUT, "inc"), "-I" + os.path.join(VERIF, "sim"), "-I" + REPO, "-I" + REPO + "/klm",
               "-I" + REPO + "/utils", "-I" + REPO + "/mteval", "-I" + REPO + "/decoder", "-I" + REPO + "/training/utils", "-I" + REPO + "/training",
               "-I/usr/include/eigen3", "-include", os.path.join(VERIF, "sim", "compat.h")]

def sha(path, memo={}):
    if path in memo: return memo[path]
    try: h = hashlib.sha1(open(path, "rb").read()).hexdigest()
    except OSError: h = "missing"
    memo[path] = h
    return h

class BuildError(Exception): pass

def generate(name):
    src, cmd = GEN[name]; src = os.path.join(REPO, src)
    out = os.path.join(OUT, "gen", name); key = out + ".key"
    k = hashlib.sha1(open(src, "rb").read() + repr(cmd).encode()).hexdigest()
    if os.path.exists(out) and os.path.exists(key) and open(key).read() == k: return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = subprocess.run(cmd + [out, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError("generating %s failed\n%s" % (name, r.stdout[-3000:]))
    open(key, "w").write(k)
    return out

def compile_one(src, flags, tag):
    key = hashlib.sha1((" ".join(flags) + "|" + src + "|" + tag + ("v2" if tag.startswith("main=") else "")).encode()).hexdigest()[:16]
    base = os.path.join(OUT, "obj", os.path.basename(src).rsplit(".", 1)[0] + "-" + key)
    obj, dep, meta = base + ".o", base + ".d", base + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if all(sha(p) == h for p, h in m.items()): return obj
        except Exception: pass
    cmd = [CXX] + flags + ["-MD", "-MF", dep, "-c", src, "-o", obj]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    if tag.startswith("main="):   # a program's main becomes a callable function (and keeps its implicit "return 0")
        # and its other functions and variables stay its own
        syms = [l.split()[2] for l in subprocess.check_output(["nm", "--defined-only", obj], text=True).splitlines() if len(l.split()) == 3]
        kinds = {l.split()[2]: l.split()[1] for l in subprocess.check_output(["nm", "--defined-only", obj], text=True).splitlines() if len(l.split()) == 3}
        local = ["--localize-symbol=" + n for n in syms if kinds[n] in "TBDR" and n != "main"]
        subprocess.check_call(["objcopy", "--redefine-sym", tag] + local + [obj])
    json.dump({p: sha(p) for p in deps if not p.startswith("/usr/")}, open(meta, "w"))
    return obj

def expand(pats):
    out = []
    for p in pats:
        neg = p.startswith("!")
        if neg:
            q = os.path.join(REPO, p[1:])
            out = [x for x in out if not fnmatch.fnmatch(x, q)]
        elif p.startswith("gen:"):
            out.append(generate(p[4:]))
        else:
            q = p if p.startswith("/") else os.path.join(REPO, p)
            got = sorted(glob.glob(q))
            if not got: raise BuildError("no source matches " + p)
            for g in got:
                if g not in out: out.append(g)
    return out

KLM_UTIL = ["klm/util/*.cc", "klm/util/double-conversion/*.cc", "!*_test.cc", "!*_main.cc", "!*/cat_compressed_main.cc"]
KLM_STREAM = ["klm/util/stream/*.cc", "!*_test.cc"]
KLM_LM = ["klm/lm/*.cc", "!*_test.cc", "!*_main.cc", "!*/kenlm_*.cc", "!*/ngram_query.cc", "!*/fragment.cc", "!*/max_order.cc" ]
KLM_BUILDER = ["klm/lm/builder/*.cc", "!*_test.cc", "!*_main.cc"]
CDEC_UTILS = ["utils/*.cc", "!*_test.cc", "!*/ts.cc", "!*/atools.cc", "!*/dedup_corpus.cc", "!*/reconstruct_weights.cc", "!*/b64tools.cc"]
MTEVAL = ["mteval/*.cc", "!*_test.cc", "!*/fast_score.cc", "!*/mbr_kbest.cc"]
DECODER = ["decoder/*.cc", "!*_test.cc", "!*/decoder/cdec.cc"]
KSEARCH = ["klm/search/edge_generator.cc", "klm/search/nbest.cc", "klm/search/rule.cc", "klm/search/vertex.cc"]
GEN = {}      # generated sources: name -> (repository source, command)
GEN["rule_lexer.cc"] = ("decoder/rule_lexer.ll", ["flex", "-o"])
BOOST = ["-lboost_thread", "-lboost_system", "-lboost_program_options", "-lboost_filesystem", "-lboost_serialization", "-lboost_iostreams"]
COMPRESS = ["-lz", "-lbz2", "-llzma"]
SIM = ["sim/core.cc", "sim/driver.cc", "sim/posix.cc", "sim/sync.cc", "sim/tsan_rt.cc"]

TARGETS = {}
def target(name, harness, repo=(), libs=(), net="sim/net.cc", extra_sim=(), flags=(), untsan=(), renamed=(), harness_flags=(), ldflags=()):
    TARGETS[name] = dict(harness=harness, repo=list(repo), libs=list(libs), sim=SIM + [net] + list(extra_sim), flags=list(flags), untsan=list(untsan), renamed=list(renamed), harness_flags=list(harness_flags), ldflags=list(ldflags))

sys.path.insert(0, os.path.join(VERIF, "tools"))
import targets as _t
_t.define(sys.modules[__name__])

def ensure_inc():
    d = os.path.join(OUT, "inc"); os.makedirs(d, exist_ok=True); os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    cfg = open(os.path.join(VERIF, "sim", "config.h.in")).read()
    p = os.path.join(d, "config.h")
    if not os.path.exists(p) or open(p).read() != cfg:
        open(p, "w").write(cfg)

def build(name, jobs=None, quiet=True):
    if name == "realtime": return os.path.join(VERIF, "harness", "realtime.py")     # (Python: loads the code under test from its source)
    ensure_inc()
    t = TARGETS[name]
    jobs = jobs or (os.cpu_count() or 4)
    work = []
    for s in t["sim"]: work.append((os.path.join(VERIF, s), COMMON + ["-fno-omit-frame-pointer"] + INC(), "sim"))
    for s in t["harness"]: work.append((os.path.join(VERIF, s), COMMON + TSAN + t["flags"] + t["harness_flags"] + INC(), "h"))
    for s, name_ in t["renamed"]:
        src = os.path.join(REPO, s)
        work.append((src, COMMON + TSAN + t["flags"] + INC(), "main=" + name_))
    lib = []
    for s in expand(t["repo"]): lib.append((s, COMMON + TSAN + t["flags"] + INC(), "lib"))
    for s in expand(t["untsan"]): lib.append((s, COMMON + t["flags"] + INC(), "nolib"))
    with ThreadPoolExecutor(jobs) as ex:
        # biggest first helps the tail
        order = sorted(work + lib, key=lambda w: -os.path.getsize(w[0]))
        futs = {w[0] + w[2]: ex.submit(compile_one, *w) for w in order}
        res = {k: f.result() for k, f in futs.items()}
    objs = [res[w[0] + w[2]] for w in work]
    lobjs = [res[w[0] + w[2]] for w in lib]
    exe = os.path.join(OUT, "sim_" + name)
    link_key = hashlib.sha1("|".join([sha_now(o) for o in objs + lobjs] + t["libs"]).encode()).hexdigest()
    if os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == link_key: return exe
    ar = []
    if lobjs:
        a = os.path.join(OUT, "lib_%s.a" % name)
        if os.path.exists(a): os.unlink(a)
        subprocess.check_call(["ar", "crs", a] + lobjs)
        ar = [a]
    cmd = [CXX, "-o", exe + ".tmp", "-rdynamic", "-no-pie"] + t["ldflags"] + objs + ["-Wl,--start-group"] + ar + ["-Wl,--end-group"] + t["libs"] + ["-lpthread", "-ldl", "-lrt"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError("link failed\n" + r.stdout[-8000:])
    os.rename(exe + ".tmp", exe)
    open(exe + ".key", "w").write(link_key)
    return exe

def sha_now(p): return hashlib.sha1(open(p, "rb").read()).hexdigest()

if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]: sys.argv[1:] = []
    import time
    names = sys.argv[1:] or list(TARGETS)
    for n in names:
        t0 = time.time()
        try: print(n, build(n), "%.1fs" % (time.time() - t0), flush=True)
        except BuildError as e: print(e); sys.exit(2)
