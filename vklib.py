#!/usr/bin/env python3
"""Runner: builds bitcode from /repo's current tree, explores harnesses with symex, replays, writes evidence."""
import os, sys, json, hashlib, subprocess, time, threading, tempfile, shutil, fcntl, select, collections, glob, random

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VK_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
NCPU = os.cpu_count() or 8
DEFS = ["-DSCN_DISABLE_FAST_FLOAT=1", "-DSCN_REGEX_BACKEND=0"]
BASE = ["-std=c++17", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + VERIF + "/harness", "-w", "-D_GLIBCXX_ASSERTIONS"] + DEFS
UB = ["-fsanitize=undefined", "-fno-sanitize=vptr,function,alignment,null,pointer-overflow,object-size", "-fsanitize-trap=undefined"]
BCFLAGS = BASE + ["-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DVK_SYMBOLIC=1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-O1", "-fno-pic", "-fno-pie", "-emit-llvm", "-c"] + UB
# The replay build mirrors how users run the library: plain clang++ build with ASan and UBSan.
NATFLAGS = BASE + ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-c"]
CXX = "clang++"

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def hash_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()[:20]

def tree(*dirs):
    out = []
    for d in dirs:
        for r, _, fs in os.walk(d):
            out += [os.path.join(r, f) for f in fs]
    return out

_locks = collections.defaultdict(threading.Lock)
def once(path, fn):
    """Build `path` with fn(tmp) unless cached (safe across threads and processes)."""
    with _locks[path]:
        if os.path.exists(path): return path
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path + ".lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(path):
                tmp = path + ".tmp%d" % os.getpid()
                fn(tmp); os.rename(tmp, path)
        try: os.unlink(path + ".lock")
        except OSError: pass
    return path

class BuildError(Exception): pass

def sh(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd)[:600], p.stdout.decode(errors="replace")[-4000:]))

def engine():
    k = hash_files(tree(VERIF + "/engine"))
    out = os.path.join(CACHE, "engine-" + k)
    exe = os.path.join(out, "symex")
    def b(tmp):
        sh(["bash", VERIF + "/engine/build.sh", tmp + ".d"], "engine build")
        os.rename(tmp + ".d/symex", tmp); shutil.rmtree(tmp + ".d", ignore_errors=True)
    return once(exe, b)

class Build:
    """Content-addressed compilation of /repo's sources and the harnesses."""
    def __init__(self):
        self.repo = tree(REPO + "/include", REPO + "/src/scn")
        self.rk = hash_files(self.repo)
        self.dir = os.path.join(CACHE, "b-" + self.rk)
        os.makedirs(self.dir, exist_ok=True)
        hk = tree(VERIF + "/harness")
        self.hdr = hash_files([p for p in hk if p.endswith(".h")])
        self.gc()
    def gc(self):
        # keep only the most recent few trees in the cache (bounded disk use)
        ds = sorted(glob.glob(CACHE + "/b-*"), key=os.path.getmtime, reverse=True)
        for d in ds[6:]:
            if d != self.dir: shutil.rmtree(d, ignore_errors=True)
    def comp(self, src, flags, suffix, extra_defs=()):
        k = hash_files([src], " ".join(flags) + "|" + " ".join(extra_defs) + "|" + (self.hdr if src.startswith(VERIF) else ""))
        out = os.path.join(self.dir, os.path.basename(src) + "-" + k + suffix)
        return once(out, lambda tmp: sh([CXX] + flags + list(extra_defs) + [src, "-o", tmp], "compiling " + os.path.basename(src)))
    def impl_bc(self): return self.comp(REPO + "/src/scn/impl.cpp", BCFLAGS, ".bc")
    def impl_o(self): return self.comp(REPO + "/src/scn/impl.cpp", NATFLAGS, ".o")
    def harness(self, name, defs=(), needs_impl=True):
        """-> (bitcode, native thunk)"""
        src = VERIF + "/harness/" + name + ".cpp"
        stubs = VERIF + "/harness/stubs.cpp"
        parts = [self.comp(src, BCFLAGS, ".bc", defs), self.comp(stubs, [f for f in BCFLAGS if "sanitize" not in f] + ["-fno-builtin"], ".bc")] + ([self.impl_bc()] if needs_impl else [])
        k = hashlib.sha256("|".join(parts).encode()).hexdigest()[:20]
        out = os.path.join(self.dir, name + "-" + k + ".linked.bc")
        def lnk(tmp):
            sh(["llvm-link", "-o", tmp + ".l"] + parts, "llvm-link")
            sh(["opt", "-passes=internalize,globaldce", "-internalize-public-api-list=vk_main", tmp + ".l", "-o", tmp], "opt")
            os.unlink(tmp + ".l")
        return once(out, lnk)
    def native(self, name, defs=(), needs_impl=True):
        src = VERIF + "/harness/" + name + ".cpp"
        objs = [self.comp(src, NATFLAGS, ".o", defs), self.comp(VERIF + "/harness/vk_native.cpp", NATFLAGS, ".o")] + ([self.impl_o()] if needs_impl else [])
        k = hashlib.sha256("|".join(objs).encode()).hexdigest()[:20]
        out = os.path.join(self.dir, name + "-" + k + ".exe")
        return once(out, lambda tmp: sh([CXX, "-fsanitize=address,undefined", "-o", tmp] + objs, "linking native replay"))

ASSUME = ["scn's own functions and the inlined libstdc++ templates are executed from LLVM bitcode compiled from /repo on this run; libc and locale calls are the models in engine/ and harness/*stubs* (listed in DESIGN.md)",
          "inputs longer than the bounds, and combinations outside the listed harness parameters, are not covered",
          "allocation does not fail; 64-bit little-endian x86, wchar_t of 32 bits, options of the project's own build"]

def job_bounds(jobs):
    """per harness: how many instances, the range of every parameter (N = input length in code units unless the harness says otherwise), compile-time variants, instruction limit per path"""
    out = {}
    for j in jobs:
        d = out.setdefault(j.harness, {"instances": 0, "params": {}, "variants": [], "max_instructions_per_path": j.maxinstr})
        d["instances"] += 1
        for k, v in j.params.items():
            lo, hi = d["params"].get(k, [v, v]); d["params"][k] = [min(lo, v), max(hi, v)]
        t = " ".join(j.defs) or "narrow"
        if t not in d["variants"]: d["variants"].append(t)
    return out

class Job:
    def __init__(self, harness, params=None, covers=(), defs=(), maxinstr=3000000, leak=True, label="", needs_impl=True, native=True, weight=1):
        self.harness, self.params, self.covers, self.defs = harness, dict(params or {}), list(covers), tuple(defs)
        self.maxinstr, self.leak, self.needs_impl, self.native_ok = maxinstr, leak, needs_impl, native
        self.label = label or harness + ("" if not params else "[" + ",".join("%s=%s" % kv for kv in self.params.items()) + "]")
        self.weight = weight
        self.stats = {}; self.covered = set(); self.funcs = set(); self.tests = []; self.viol = []; self.err = []; self.rc = None; self.wall = 0; self.incomplete = False

def run_native(exe, hexs, params, timeout=60):
    env = dict(os.environ); env["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=0"; env["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=98"
    try:
        p = subprocess.run([exe, hexs] + ["%s=%d" % kv for kv in params.items()], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""

class Runner:
    def __init__(self, prop, tier, seed, budget):
        self.prop, self.tier, self.seed, self.budget = prop, tier, seed, budget
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vk-%s-" % prop)
        r, w = os.pipe(); os.set_inheritable(r, True); os.set_inheritable(w, True)
        fcntl.fcntl(r, fcntl.F_SETFL, fcntl.fcntl(r, fcntl.F_GETFL) | os.O_NONBLOCK)
        self.tr, self.tw = r, w
        os.write(w, b"+" * NCPU)
    def take(self):
        while True:
            try: return os.read(self.tr, 1)
            except BlockingIOError: select.select([self.tr], [], [], 0.5)
    def give(self): os.write(self.tw, b"+")
    def left(self): return self.budget - (time.time() - self.t0)
    def share(self): return max(5, int(self.left() if self.tier != "quick" else max(15, min(160, self.left() / 4))))
    def explore(self, job, bc, exe):
        if self.left() < 10: job.incomplete = True; job.rc = 0; return
        out = os.path.join(self.work, "o%d" % id(job))
        cmd = [exe, bc, "-o", out, "-m", str(job.maxinstr), "-t", str(self.share()), "-n", "25", "-s", str(self.seed), "--tokens", "%d,%d" % (self.tr, self.tw)]
        for k, v in job.params.items(): cmd += ["-p", "%s=%d" % (k, v)]
        if not job.leak: cmd.append("--no-leak")
        t = time.time()
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, pass_fds=(self.tr, self.tw))
        job.wall = time.time() - t; job.rc = p.returncode
        st = collections.Counter()
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                f = line.rstrip("\n").split("\t")
                if f[0] == "S":
                    for k, v in json.loads(f[1]).items():
                        if k in ("maxq", "maxpath"): st[k] = max(st[k], v)
                        else: st[k] += v
                elif f[0] == "C": job.covered.add(f[1])
                elif f[0] == "F": job.funcs.add(f[1])
                elif f[0] == "T": job.tests.append((f[1], f[2] if len(f) > 2 else ""))
                elif f[0] == "V": job.viol.append({"kind": f[1], "label": f[2], "bytes": f[3], "where": f[4] if len(f) > 4 else ""})
                elif f[0] == "E":
                    if "time budget exhausted" in f[1]: job.incomplete = True
                    else: job.err.append(f[1])
            os.unlink(out)
        job.stats = st
        if p.returncode and not job.err and not job.incomplete: job.err.append("symex exit %s: %s" % (p.returncode, p.stderr.decode(errors="replace")[-300:]))
    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

def demangle(names):
    if not names: return []
    p = subprocess.run(["llvm-cxxfilt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return p.stdout.decode(errors="replace").splitlines()

def short(n):
    # keep the qualified function name only
    d = 0; out = ""
    for ch in n:
        if ch == "<": d += 1; continue
        if ch == ">": d -= 1; continue
        if d == 0:
            if ch == "(" and not out.endswith("operator") and "(anonymous" not in n[len(out):len(out)+12]: break
            out += ch
    return out.split(" ")[-1] if out else n

def run_check(prop, jobs, tier, seed, budget=None, bounds=None, assumptions=(), known=()):
    if budget is None: budget = 620 if tier == "quick" else 6 * 3600
    R = Runner(prop, tier, seed, budget)
    rc = 2
    try:
        rc = _run_check(R, prop, jobs, tier, seed, bounds, assumptions, known)
    except BuildError as e:
        print("ERROR property=%s build: %s" % (prop, e)); rc = 2
    finally:
        R.close()
    return rc

def _run_check(R, prop, jobs, tier, seed, bounds, assumptions, known):
    B = Build(); errs = []; box = {}
    def guard(fn, key=None):
        def g():
            try:
                r = fn()
                if key: box[key] = r
            except Exception as e: errs.append(e)
        t = threading.Thread(target=g); t.start(); return t
    # builds in parallel
    ths = [guard(engine, "engine"), guard(B.impl_bc), ]
    hs = {(j.harness, j.defs, j.needs_impl) for j in jobs}
    for h in hs: ths.append(guard(lambda h=h: B.comp(VERIF + "/harness/" + h[0] + ".cpp", BCFLAGS, ".bc", h[1])))
    natth = []
    nh = {(j.harness, j.defs, j.needs_impl) for j in jobs if j.native_ok}
    natth.append(guard(B.impl_o))
    for h in nh: natth.append(guard(lambda h=h: B.comp(VERIF + "/harness/" + h[0] + ".cpp", NATFLAGS, ".o", h[1])))
    for t in ths: t.join()
    if errs: raise errs[0] if isinstance(errs[0], BuildError) else BuildError(repr(errs[0]))
    tb = time.time() - R.t0
    bcs = {}
    def linkone(h): bcs[h] = B.harness(*h)
    lt = [guard(lambda h=h: linkone(h)) for h in hs]
    for t in lt: t.join()
    if errs: raise errs[0] if isinstance(errs[0], BuildError) else BuildError(repr(errs[0]))
    exe = box["engine"]
    threads = []
    for j in sorted(jobs, key=lambda j: -j.weight):
        R.take()
        def work(j=j):
            try:
                if os.environ.get("VK_FAST") and any(x.viol for x in jobs): return   # development only: stop at the first violation
                R.explore(j, bcs[(j.harness, j.defs, j.needs_impl)], exe)
                if os.environ.get("VK_V"): log("%s %.1fs paths=%d smt=%d%s" % (j.label, j.wall, j.stats.get("paths", 0), j.stats.get("z3", 0), " VIOL" if j.viol else " ERR" if j.err else ""))
            except Exception as e: j.err.append(repr(e)); j.rc = 3
            finally: R.give()
        t = threading.Thread(target=work); t.start(); threads.append(t)
    for t in threads: t.join()
    for t in natth: t.join()
    if errs: raise errs[0] if isinstance(errs[0], BuildError) else BuildError(repr(errs[0]))
    texp = time.time() - R.t0
    nat = {}
    for h in nh: nat[h] = B.native(*h)
    # --- replay of path witnesses (translation validation) and of violations
    validated = 0; mism = []; violations = []; unconf = []
    rnd = random.Random(seed); samples = []
    lock = threading.Lock()
    def val(j):
        nonlocal validated
        if not j.native_ok or not j.tests: return
        n = 40 if tier == "quick" else 400
        ts = j.tests if len(j.tests) <= n else rnd.sample(j.tests, n)
        f = os.path.join(R.work, "t%d" % id(j))
        open(f, "w").write("\n".join(t[0] for t in ts) + "\n")
        rc, so, se = run_native(nat[(j.harness, j.defs, j.needs_impl)], "@" + f, j.params, 300)
        obs = [l[4:] for l in so.splitlines() if l.startswith("OBS ")]
        with lock:
            for i, t in enumerate(ts):
                if i >= len(obs):
                    # the real build fails (assertion, sanitizer report, signal, hang) on an input of an explored path
                    if rc == 11: mism.append("%s: witness %s: native run ended rc=%s %s" % (j.label, t[0], rc, (so + se)[-600:]))
                    else: j.viol.append({"kind": "replay", "label": "real build fails on the witness of an explored path", "bytes": t[0], "where": (so + se)[-400:]})
                    break
                if obs[i] != t[1]: mism.append("%s: witness %s: symbolic %s native %s" % (j.label, t[0], t[1], obs[i]))
                else: validated += 1
            for t in ts[:2]: samples.append({"job": j.label, "input_bytes_hex": t[0], "observed": t[1]})
    vt = []
    sem = threading.Semaphore(NCPU)
    def lim(fn):
        with sem: fn()
    clean = [j for j in jobs if not j.viol]
    for j in clean: t = threading.Thread(target=lambda j=j: lim(lambda: val(j))); t.start(); vt.append(t)
    for t in vt: t.join()
    for j in jobs:
        for v in j.viol:
            if not j.native_ok: v["confirmed"] = "engine-only"; violations.append((j, v)); continue
            x = nat[(j.harness, j.defs, j.needs_impl)]
            r, so, se = run_native(x, v["bytes"], j.params, 90)
            v["native_rc"] = r; v["native_out"] = (so + se)[-1500:]
            if r == 11: unconf.append((j, v))
            elif r != 0: violations.append((j, v))
            else: unconf.append((j, v))
    # --- verdict
    st = collections.Counter(); funcs = set(); cov = {}
    for j in jobs:
        for k, v in j.stats.items():
            if k in ("maxq", "maxpath"): st[k] = max(st[k], v)
            else: st[k] += v
        funcs |= j.funcs
    missing = [(j.label, c) for j in jobs if not j.viol and j.rc is not None and not j.err and not j.incomplete for c in j.covers if c not in j.covered]
    dem = [d for d in demangle(sorted(f for f in funcs if "3scn" in f))]
    names = sorted({short(d) for d in dem})
    jerr = [(j.label, e) for j in jobs for e in j.err]
    inc = [j.label for j in jobs if j.incomplete]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": int(st["paths"] + st["killed"]), "transitions": int(st["instr"]), "traces_validated_against_impl": validated,
              "samples": samples[:12], "exhaustive": not jerr and not mism and not inc, "jobs_stopped_at_their_time_limit": inc,
              "symbolic_paths_completed": int(st["paths"]), "assumption_pruned": int(st["pruned"]), "forks": int(st["forks"]),
              "assertions_checked": int(st["asserts"]), "assertions_discharged_by_smt": int(st["assertZ3"]), "assertions_discharged_by_byte_domain": int(st["assertDom"]), "assertions_concrete_on_path": int(st["assertConst"]),
              "smt_queries": int(st["z3"]), "smt_sat": int(st["z3sat"]), "smt_unsat": int(st["z3unsat"]), "branch_queries_by_domain_or_interval": int(st["domq"] + st["rngq"] + st["lsq"]), "queries_by_linear_normal_form": int(st["linq"]), "cached_queries": int(st["cacheq"]),
              "solver_time_s": round(st["z3time"], 3), "slowest_query_s": round(st["maxq"], 3), "longest_path_instructions": int(st["maxpath"]),
              "functions_encoded": len(names), "functions": names[:80],
              "jobs": [{"job": j.label, "paths": int(j.stats.get("paths", 0)), "smt": int(j.stats.get("z3", 0)), "wall_s": round(j.wall, 2), "covers": sorted(j.covered)} for j in jobs],
              "bounds": bounds or job_bounds(jobs)},
          "assumptions": list(assumptions) or ASSUME, "wall_s": round(time.time() - R.t0, 2), "violations": len(violations)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
    log("[%s] jobs=%d paths=%d instr=%d z3=%d z3time=%.1f maxq=%.2f asserts=%d validated=%d build=%.1fs explore=%.1fs total=%.1fs" % (prop, len(jobs), st["paths"], st["instr"], st["z3"], st["z3time"], st["maxq"], st["asserts"], validated, tb, texp - tb, time.time() - R.t0))
    for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if violations:
        os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
        j, v = violations[0]
        path = VERIF + "/evidence/replay/%s.json" % prop
        json.dump({"property": prop, "job": j.label, "harness": j.harness, "defs": j.defs, "params": j.params, "violation": v, "all": [{"job": a.label, **b} for a, b in violations]}, open(path, "w"), indent=1)
        for a, b in violations[:5]: print("  %s: %s: %s bytes=%s at %s (native rc=%s)" % (a.label, b["kind"], b["label"], b["bytes"], b["where"][:300], b.get("native_rc")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    bad = False
    for a, b in unconf: print("UNCONFIRMED %s: %s: %s bytes=%s at %s" % (a.label, b["kind"], b["label"], b["bytes"], b["where"][:300])); bad = True
    for l, e in jerr: print("ERROR %s: %s" % (l, e[:1000])); bad = True
    for m in mism[:10]: print("MISMATCH %s" % m); bad = True
    for l, c in missing: print("VACUOUS %s: cover point %r not reached" % (l, c)); bad = True
    for l in inc: print("INCOMPLETE %s: stopped at its time limit; nothing wrong in the part explored" % l)
    if len(inc) > len(jobs) * 3 // 4: bad = True
    if bad: return 2
    print("OK property=%s tier=%s paths=%d smt_queries=%d asserts=%d validated=%d wall=%.1fs" % (prop, tier, st["paths"], st["z3"], st["asserts"], validated, time.time() - R.t0))
    return 0
