#!/usr/bin/env python3
"""check.py PROP quick|thorough   -- build from /repo's working tree, explore, gate, report
   check.py replay FILE           -- replay a violation exactly
   check.py build [PROP...]       -- build only
   check.py determinism [PROP...] -- many seeds, several processes, compare logs
"""
import sys, os, json, hashlib, subprocess, time, re, glob, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CCGL_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(V, "build"))
sys.path.insert(0, V)
from simconfig import PROPS, QUICK_S, THOROUGH_S

GDAL_I = ["-isystem", "/usr/include/gdal"]
MONGO_I = ["-isystem", "/usr/include/libbson-1.0", "-isystem", "/usr/include/libmongoc-1.0"]
CCGL_SRC = ["basic", "utils_array", "utils_filesystem", "utils_math", "utils_string", "utils_time", "data_raster", "db_mongoc"]
COMMON = ["-g1", "-DNDEBUG", "-pthread", "-fno-omit-frame-pointer", "-Wno-deprecated-declarations", "-w"]
VARIANTS = {
    "asan": dict(cc=["-O1", "-fsanitize=address", "-ftrivial-auto-var-init=pattern"], core=["-O1", "-fsanitize=address"], link=["-fsanitize=address"]),
    "race": dict(cc=["-O1", "-fsanitize=thread", "-fno-inline-small-functions", "-ftrivial-auto-var-init=pattern"], core=["-O2"], link=[]),
}
DEF = ["-DLINUX", "-DSUPPORT_OMP", "-DUSE_GDAL", "-fopenmp"]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f: return f.read()

def headers(dirs):
    out = []
    for d in dirs:
        for p in sorted(glob.glob(d + "/*.h") + glob.glob(d + "/*.hpp")): out.append(rd(p))
    return b"\1".join(out)

def privatise(obj):
    """the core's copies of inline library functions must not be replaced by instrumented ones, nor the other way round"""
    subprocess.check_call(["ld", "-r", "--force-group-allocation", obj, "-o", obj + ".r"])
    weak = [l.split()[-1] for l in subprocess.check_output(["nm", obj + ".r"], text=True).splitlines() if len(l.split()) == 3 and l.split()[1] == "W"]
    with open(obj + ".w", "w") as f: f.write("\n".join(weak) + "\n")
    subprocess.check_call(["objcopy", "--localize-symbols=" + obj + ".w", obj + ".r", obj])
    os.unlink(obj + ".r"); os.unlink(obj + ".w")

def compile_obj(src, flags, hdrs, std, private=False):
    cmd = ["g++", "-std=" + std, "-c"] + flags
    key = sha(rd(src), hdrs, " ".join(cmd), os.path.basename(src), "private" if private else "")
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(cmd + [src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0: raise RuntimeError("compile failed: %s\n%s" % (src, r.stdout[-6000:]))
        if private: privatise(tmp)
        os.rename(tmp, obj)
    return obj

def plan(prop):
    """list of (src, flags, hdrs, std) and the link line"""
    c = PROPS[prop]; var = VARIANTS[c.get("variant", "asan")]
    mongo = c.get("mongo", False)
    inc = ["-I", REPO + "/src", "-I", REPO, "-I", REPO + "/apps"] + GDAL_I + (MONGO_I if mongo else [])
    defs = DEF + (["-DUSE_MONGODB"] if mongo else [])
    h_repo = headers([REPO + "/src", REPO + "/apps"]); h_sim = headers([V + "/sim", V + "/props"])
    jobs = []
    for s in CCGL_SRC:
        p = "%s/src/%s.cpp" % (REPO, s)
        if not os.path.exists(p): continue
        if s == "db_mongoc" and not mongo: continue
        jobs.append((p, COMMON + var["cc"] + defs + inc, h_repo, "c++11"))
    known = set(CCGL_SRC)
    for p in sorted(glob.glob(REPO + "/src/*.cpp")):       # files a change may have added
        if os.path.basename(p)[:-4] not in known: jobs.append((p, COMMON + var["cc"] + defs + inc, h_repo, "c++11"))
    for extra in c.get("repo_tus", []):                    # (path, extra flags)
        jobs.append((REPO + "/" + extra[0], COMMON + var["cc"] + defs + inc + extra[1], h_repo, "c++11"))
    for s in c["tus"]:                                     # property code that instantiates CCGL templates
        jobs.append((V + "/props/" + s, COMMON + var["cc"] + defs + inc + ["-I", V], h_repo + h_sim, "c++17"))
    private = c.get("variant", "asan") == "race"
    for s in c.get("core_tus", []):                        # model code: never instrumented, may include CCGL headers
        jobs.append((V + "/props/" + s, COMMON + var["core"] + [d for d in defs if d != "-fopenmp"] + inc + ["-I", V], h_repo + h_sim, "c++17", private))
    for s in ["rt", "fs", "clock", "omp", "alloc"] + c.get("sim", []):
        jobs.append((V + "/sim/%s.cpp" % s, COMMON + var["core"] + ["-DSIM_VARIANT_" + c.get("variant", "asan").upper()] + (MONGO_I if mongo else []), h_sim, "c++17", private))
    link = ["-rdynamic", "-pthread"] + var["link"] + WRAP
    libs = ["-lgdal"] + (["-lmongoc-1.0", "-lbson-1.0"] if mongo else []) + ["-ldl"]
    return jobs, link, libs

WRAP = ["-Wl,--wrap=_Znam,--wrap=_Znwm,--wrap=_ZnamRKSt9nothrow_t,--wrap=_ZnwmRKSt9nothrow_t,--wrap=_ZdaPv,--wrap=_ZdaPvm"]

def build(prop, pool=None):
    jobs, link, libs = plan(prop)
    own = pool is None
    if own: pool = ThreadPoolExecutor(8)
    # longest first
    jobs.sort(key=lambda j: 0 if "/props/" in j[0] else 1)
    objs = list(pool.map(lambda j: compile_obj(*j), jobs))
    if own: pool.shutdown()
    key = sha(prop, " ".join(objs), " ".join(link + libs))
    exe = os.path.join(BUILD, "bin", "%s-%s" % (prop, key))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + link + objs + ["-o", tmp] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0: raise RuntimeError("link failed\n" + r.stdout[-6000:])
        os.rename(tmp, exe)
    return exe

def prune():
    """keep the cache bounded"""
    for sub, keep in (("obj", 400), ("bin", 60)):
        fs = sorted(glob.glob(os.path.join(BUILD, sub, "*")), key=os.path.getmtime, reverse=True)
        for f in fs[keep:]:
            try: os.unlink(f)
            except OSError: pass

def known_for(prop):
    """classes listed as KNOWN for this property: [(class, description)]"""
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

def env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LD_LIBRARY_PATH")}
    for k in os.environ:
        if k.startswith("SIM_"): e[k] = os.environ[k]
    e.update(LC_ALL="C", TZ="UTC", GDAL_PAM_ENABLED=e.get("GDAL_PAM_ENABLED", "YES"), OMP_NUM_THREADS="4")
    e.pop("ASAN_OPTIONS", None)
    return e

def one(exe, tape, out=None):
    r = subprocess.run([exe, "one", tape] + ([out] if out else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env(), timeout=300)
    t = r.stdout.decode(errors="replace")
    m = re.findall(r"status=(\d+) class=(.*) hash=(\d+)\n(.*)", t)
    return m[-1] if m else None

def write_evidence(prop, tier, seed, cov, wall, violations, assumptions):
    d = os.path.join(V, "evidence"); os.makedirs(d, exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=PROPS[prop].get("level", "exploration"), coverage=cov, assumptions=assumptions, wall_s=round(wall, 2), violations=violations)
    p = os.path.join(d, prop + ".json")
    with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try: exe = build(prop)
    except RuntimeError as e:
        print(str(e)); print("check error: build failed"); return 2
    tb = time.time() - t0
    c = PROPS[prop]
    secs = float(os.environ.get("SIM_SECONDS", c.get("quick_s", QUICK_S) if tier == "quick" else c.get("thorough_s", THOROUGH_S)))
    out = os.path.join(BUILD, "run", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    known = known_for(prop)
    kf = os.path.join(out, "known")
    with open(kf, "w") as f: f.write("\n".join(k for k, _ in known) + "\n")
    rc = 0
    maxruns = c.get("max_runs_quick", 10**9) if tier == "quick" else 10**9
    try:
        r = subprocess.run([exe, "batch", str(seed), str(os.environ.get("SIM_WORKERS", "8")), str(secs), str(maxruns), out, kf], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=secs * 3 + 300)
    except subprocess.TimeoutExpired:
        print("check error: batch did not end"); return 2
    bp = os.path.join(out, "batch.json")
    if r.returncode != 0 or not os.path.exists(bp):
        print("check error: batch runner exited with %d" % r.returncode); return 2
    b = json.load(open(bp))
    herr = sorted(glob.glob(out + "/herr-*.case"))
    viols = sorted(glob.glob(out + "/viol-*.case"), key=lambda p: int(re.findall(r"viol-(\d+)", p)[0]))
    reported = 0
    if herr:
        d = json.load(open(herr[0])); print("check error: harness error in run %s: %s" % (d["run"], d["message"])); rc = 2
    if b["det_mismatch"]:
        print("check error: %d of %d re-executed runs were not identical" % (b["det_mismatch"], b["det_checked"])); rc = 2
    for k, desc in known:
        print("KNOWN-FINDING: property=%s %s [class %s, hit by %d runs]" % (prop, desc, k, b["known"].get(k, 0)))
    seen = set(); gate_failed = False
    for v in viols:
        d = json.load(open(v))
        if d["class"] in seen: continue
        seen.add(d["class"])
        # gate 1: the recorded tape, twice, in fresh processes
        a1, a2 = one(exe, v), one(exe, v)
        if not a1 or a1[0] != "2" or a1[1] != d["class"] or a1[2] != d["hash"] or a1[:3] != a2[:3]:
            print("check error: run %s (class %s) did not reproduce: %s / %s" % (d["run"], d["class"], a1, a2)); gate_failed = True; continue
        mn = os.path.join(out, "min.case")
        msec = float(os.environ.get("SIM_MIN_S", "25"))
        m = subprocess.run([exe, "min", v, mn, str(msec)], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        best = mn if m.returncode == 0 and os.path.exists(mn) else v
        d2 = json.load(open(best))
        b1, b2 = one(exe, best), one(exe, best)
        if not (b1 and b1[0] == "2" and b1[1] == d["class"] and b1[:3] == b2[:3]):
            best = v; d2 = d
        rp = os.path.join(V, "replays"); os.makedirs(rp, exist_ok=True)
        dst = os.path.join(rp, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9]+", "-", d["class"])[:60]))
        fin = os.path.join(out, "final.case"); one(exe, best, fin)
        d3 = json.load(open(fin)) if os.path.exists(fin) else d2
        d3["property"] = prop; d3["seed"] = seed; d3["run"] = d["run"]
        d3["replay_with"] = "python3 %s/check.py replay %s" % (V, dst)
        json.dump(d3, open(dst, "w"), indent=0)
        print("violation class: %s\n%s" % (d["class"], d3["message"][:1500]))
        for l in d3.get("trace", [])[-40:]: print("   | " + l[:200])
        print("VIOLATION property=%s replay=%s" % (prop, dst))
        reported += 1; rc = 1
    if gate_failed and reported == 0: rc = 2
    wall = time.time() - t0
    per_h = b["runs"] / max(b["wall"], 1e-6) * 3600
    cov = dict(evaluations=b["runs"], distinct_nontrivial=b["distinct"], rule=b["rule"] + " Distinct: number of different event-log hashes among the non-trivial runs.", samples=b["samples"],
               nontrivial_runs=b["nontrivial"], runs_per_hour=int(per_h), seeds_per_hour=int(per_h), simulated_events=b["steps"], simulated_seconds=round(b["simns"] / 1e9, 3),
               faults_fired=b["faults"], fault_kinds=len(b["faults"]), rare_conditions_reached=b["probes"], known_finding_hits=b["known"],
               real_components=b["real"], stub_components=b["stub"], determinism=dict(runs_re_executed=b["det_checked"], mismatches=b["det_mismatch"]), build_s=round(tb, 1), workers=8)
    write_evidence(prop, tier, seed, cov, wall, reported, c.get("assumptions", []))
    shutil.rmtree(out, ignore_errors=True)
    prune()
    print("%s %s: %d runs (%d distinct non-trivial) in %.1f s, build %.1f s, faults: %s -> exit %d" % (prop, tier, b["runs"], b["distinct"], b["wall"], tb, sum(b["faults"].values()), rc))
    if b["runs"] < 20 and rc == 0:
        print("check error: too few runs"); rc = 2
    return rc

def replay(path):
    d = json.load(open(path)); exe = build(d["property"])
    r = one(exe, path)
    if not r: print("replay file could not be run"); return 2
    print("status=%s class=%s hash=%s\n%s" % r)
    ok = r[0] == "2" and r[1] == d["class"] and r[2] == d["hash"]
    print("reproduced exactly" if ok else "NOT reproduced (recorded class %s hash %s)" % (d["class"], d["hash"]))
    for l in d.get("trace", []): print("   | " + l)
    if ok: print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1 if ok else 0

def determinism(props):
    bad = 0
    for p in props:
        exe = build(p)
        for s in range(1, 6):
            rs = [subprocess.run([exe, "hashes", str(s), "60"], env=env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout for _ in range(3)]
            f = lambda t: [l for l in t.decode(errors="replace").splitlines() if re.match(r"^\d+ \d \S* ?\d+$", l)]
            x = [f(r) for r in rs]
            n = sum(1 for i in range(len(x[0])) if not (x[0][i] == x[1][i] == x[2][i]))
            bad += n
            print(p, "seed", s, "runs", len(x[0]), "mismatches", n)
    return 1 if bad else 0

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "replay": return replay(a[1])
    if a[0] == "build":
        ps = a[1:] or sorted(PROPS)
        with ThreadPoolExecutor(8) as pool:
            with ThreadPoolExecutor(8) as outer:
                fs = [(p, outer.submit(build, p, pool)) for p in ps]
                for p, f in fs:
                    try: print(p, f.result())
                    except RuntimeError as e: print(p, "FAILED", e); return 2
        return 0
    if a[0] == "determinism": return determinism(a[1:] or sorted(PROPS))
    return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
if __name__ == "__main__": sys.exit(main())
