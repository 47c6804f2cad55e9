#!/usr/bin/env python3
"""Runner of the contract verification.

  vf.py setup                      build the engine
  vf.py check <property> [--tier quick|thorough]
  vf.py run <harness file stem> [harness ...] [-v] [-- vcx args]     (development)
  vf.py replay <harness file stem> <harness> <replay file>           (concrete run against the real code)
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
WORK = os.path.join(V, "work")
VCX = os.path.join(V, "engine/build/vcx")
NCPU = os.cpu_count() or 4
CLANG = "clang++-18"
COMMON = ["-std=c++17", "-fno-exceptions", "-fno-access-control", "-DNDEBUG", "-w"]
CF = COMMON + ["-O0", "-Xclang", "-disable-O0-optnone", "-D_GLIBCXX_EXTERN_TEMPLATE=-1", "-D_GLIBCXX_ASSERTIONS", "-gline-tables-only",
      "-fsanitize=signed-integer-overflow,integer-divide-by-zero,array-bounds,return,unreachable", "-fsanitize-trap=all",
      "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-emit-llvm", "-c", "-DVF_VERIFIER=1"]
SAN = "-fsanitize=address,shift-exponent,signed-integer-overflow,integer-divide-by-zero,array-bounds,return,unreachable"
NF = COMMON + ["-O1", "-g", "-fno-omit-frame-pointer", SAN, "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-ffunction-sections", "-fdata-sections"]
INC = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO + "/src/stun", "-I" + REPO + "/src/sctp", "-I" + REPO, "-I" + V + "/lib", "-I" + V + "/harness"]

def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode("utf8", "replace") + "\n[timeout]"

def build_engine():
    os.makedirs(os.path.join(V, "engine/build"), exist_ok=True)
    with open(os.path.join(V, "engine/build/.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out = sh(["make", "-j%d" % NCPU, "-C", os.path.join(V, "engine")], 1500)
        if rc:
            print(out)
            print("vf: building the engine failed")
            sys.exit(2)

_src_hash = None
def src_hash():
    global _src_hash
    if _src_hash is None:
        h = hashlib.sha256()
        for root in (REPO + "/include", REPO + "/src", V + "/lib", V + "/harness"):
            for d, _, fs in sorted(os.walk(root)):
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp", ".inc")) or (root.startswith(REPO) and f.endswith((".cpp", ".c"))):
                        p = os.path.join(d, f)
                        h.update(p.encode()); h.update(open(p, "rb").read())
        _src_hash = h.hexdigest()
    return _src_hash

def compile_one(src, flags, suffix):
    """cached by content of every header and source of the repository, and of the file itself"""
    h = hashlib.sha256()
    h.update(src_hash().encode()); h.update(open(src, "rb").read()); h.update(" ".join(flags).encode()); h.update(src.encode())
    d = os.path.join(WORK, "cache")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, h.hexdigest()[:24] + suffix)
    if os.path.exists(out):
        os.utime(out)
        return out, ""
    tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    cc = CLANG
    fl = list(flags)
    if src.endswith(".c"):
        cc = "clang-18"
        fl = [f for f in fl if not f.startswith("-std=c++") and f not in ("-fno-access-control",)]
    rc, o = sh([cc] + fl + INC + [src, "-o", tmp], 300)
    if rc:
        return None, o
    os.rename(tmp, out)
    return out, ""

def prune_cache():
    d = os.path.join(WORK, "cache")
    if not os.path.isdir(d): return
    fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=lambda p: -os.stat(p).st_mtime)
    tot = 0
    for f in fs:
        tot += os.stat(f).st_size
        if tot > 3 << 30:
            try: os.unlink(f)
            except OSError: pass

class HFile:
    def __init__(self, path):
        self.path = path
        self.stem = os.path.basename(path)[:-4]
        self.props, self.tus, self.native, self.libs, self.opts, self.assume = [], [], [], [], {}, []
        for ln in open(path):
            m = re.match(r"// (PROPERTY|TUS|NATIVE|LIBS|OPT|ASSUME):\s*(.*)", ln)
            if not m: continue
            k, v = m.group(1), m.group(2).strip()
            if k == "PROPERTY": self.props += v.split()
            elif k == "TUS": self.tus += v.split()
            elif k == "NATIVE": self.native += v.split()
            elif k == "LIBS": self.libs += v.split()
            elif k == "ASSUME": self.assume.append(v)
            elif k == "OPT":  # OPT: <harness|*> key=value ...
                w = v.split()
                self.opts.setdefault(w[0], {}).update(dict(x.split("=", 1) for x in w[1:]))
    def opt(self, h, k, d=None):
        return self.opts.get(h, {}).get(k, self.opts.get("*", {}).get(k, d))

def harness_files():
    return [HFile(p) for p in sorted(glob.glob(V + "/harness/*.cpp"))]

class BuildError(Exception): pass

def bitcode(hf, pool):
    srcs = [hf.path, V + "/lib/rt.cpp"] + [REPO + "/" + t for t in hf.tus]
    res = list(pool.map(lambda s: (s,) + compile_one(s, CF, ".bc"), srcs))
    for s, o, e in res:
        if o is None: raise BuildError("%s does not compile for verification:\n%s" % (s, e[-4000:]))
    return [o for _, o, _ in res]

def native_build(hf, h, pool, fuzz=False):
    if hf.native == ["no"]: return None, "the contracts of this harness replace functions, so it runs under the verifier only"
    extra = hf.native + ([] if "src/logging.cpp" in hf.native else ["src/logging.cpp"])
    fl = NF + (["-fsanitize=fuzzer-no-link"] if fuzz else [])
    srcs = [hf.path] + [REPO + "/" + t for t in hf.tus if t not in extra] + [REPO + "/" + t for t in extra]
    res = list(pool.map(lambda s: (s,) + compile_one(s, fl + ["-c"], ".o"), srcs))
    nat = compile_one(V + "/native/vf_native.cpp", fl + ["-c", "-DVF_HARNESS_FN=vfh_" + h] + (["-DVF_FUZZ"] if fuzz else []), ".o")
    res.append(("vf_native",) + nat)
    for s, o, e in res:
        if o is None: return None, "%s: %s" % (s, e[-2000:])
    d = os.path.join(WORK, "native"); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s%s-%d" % (hf.stem, h, "-fuzz" if fuzz else "", os.getpid()))
    rc, o = sh([CLANG, SAN + (",fuzzer" if fuzz else "")] + [o for _, o, _ in res] + ["-Wl,--gc-sections", "-o", out, "-lpthread"] + hf.libs, 200)
    if rc: return None, o[-3000:]
    return out, ""

ASAN_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=76", UBSAN_OPTIONS="print_stacktrace=1:exitcode=76:halt_on_error=1")

def run_native(binary, args, timeout):
    rc, out = sh([binary] + args, timeout, ASAN_ENV)
    return rc, out

def confirm(binary, replay_text, path):
    with open(path, "w") as f: f.write(replay_text)
    rc, out = run_native(binary, ["replay", path], 40)
    failed = rc not in (0, 3)
    return failed, rc, out

STOP = None      # set once a violation has been confirmed against the real code: the remaining proofs are not needed
_running = set()
_run_lock = __import__("threading").Lock()
def stop_all(why):
    global STOP
    with _run_lock:
        STOP = why
        for pr in list(_running):
            try: os.killpg(pr.pid, 9)
            except Exception: pass

def run_vcx(bcs, h, out, tmo, qms, extra=()):
    if os.path.exists(out): os.unlink(out)
    t0 = time.time()
    with _run_lock:
        if STOP and not extra: return {"rc": -1, "log": "", "json": None, "wall": 0.0}
        pr = subprocess.Popen(["prlimit", "--as=%d" % (12 << 30), VCX] + bcs + ["-H", h, "-o", out, "-t", str(tmo), "-q", str(qms), "-r", REPO] + list(extra),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        _running.add(pr)
    try:
        o, _ = pr.communicate(timeout=tmo + 60)
        rc, log = pr.returncode, o.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(pr.pid, 9); o, _ = pr.communicate()
        rc, log = -9, o.decode("utf8", "replace")
    with _run_lock: _running.discard(pr)
    d = None
    try: d = json.load(open(out))
    except Exception: pass
    return {"rc": rc, "log": log[-3000:], "json": d, "wall": time.time() - t0}

import threading
_all_defs = None
_defs_lock = threading.Lock()
def defining_tu(fn, pool):
    """the repository source that defines a function the listed sources call (after code was moved between files)"""
    global _all_defs
    with _defs_lock:
        return _defining_tu(fn, pool)

def _defining_tu(fn, pool):
    global _all_defs
    if _all_defs is None:
        _all_defs = {}
        srcs = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/sctp/*.cpp") + glob.glob(REPO + "/src/stun/*.cpp"))
        for s, (o, e) in zip(srcs, pool.map(lambda s: compile_one(s, CF, ".bc"), srcs)):
            if o is None: continue
            rc, out = sh(["llvm-nm-18", "-C", "--defined-only", o], 60)
            for ln in out.splitlines():
                m = re.match(r"\S+ [TW] (.*)", ln)
                if m: _all_defs.setdefault(m.group(1), (s, o))
    return _all_defs.get(fn)

def run_linked(hf, bcs, h, out, tmo, qms, pool, extra=()):
    bcs = list(bcs)
    t0 = time.time()
    for _ in range(12):
        r = run_vcx(bcs, h, out, max(5, tmo - (time.time() - t0)), qms, extra)
        m = re.match(r"external function (.*)", (r["json"] or {}).get("undecided") or "")
        if not m: break
        d = defining_tu(m.group(1), pool)
        if d is None or d[1] in bcs: break
        bcs.append(d[1])
        rel = os.path.relpath(d[0], REPO)
        if rel not in hf.tus: hf.tus.append(rel)
    r["bcs"] = bcs
    return r

def known_findings():
    r = []
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) function=(\S+) label=\[(.*?)\] (.*)", ln.strip())
            if m: r.append(m.groups())
    return r

def merge(files):
    """harness name -> (hfile)"""
    return files

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    build_engine()
    prune_cache()
    files = [f for f in harness_files() if prop in f.props]
    if not files:
        print("vf: no harness for", prop); return 2
    rdir = os.path.join(WORK, "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    budget = 840 if tier == "quick" else 6 * 3600
    qms = 20000 if tier == "quick" else 120000
    pool = cf.ThreadPoolExecutor(NCPU)
    lpool = cf.ThreadPoolExecutor(NCPU)
    jobs = []
    try:
        for hf in files:
            bcs = bitcode(hf, pool)
            rc, lst = sh([VCX, "--list"] + bcs)
            if rc: raise BuildError(lst)
            for h in lst.split():
                if tier == "quick" and hf.opt(h, "tier") == "thorough": continue
                p = hf.opt(h, "property")
                if p and prop not in p.split(","): continue
                jobs.append((hf, h, bcs))
    except BuildError as e:
        print(e)
        print("vf: property=%s: the code could not be brought under its contracts (build), nothing decided" % prop)
        write_evidence(prop, tier, seed, files, [], t0, ["nothing decided: " + str(e)[:400]], 0)
        return 2
    left = lambda: budget - (time.time() - t0)
    results = []
    jobs.sort(key=lambda j: -float(j[0].opt(j[1], "cost", "1")))
    def one(j):
        hf, h, bcs = j
        tmo = min(float(hf.opt(h, "time", "400" if tier == "quick" else "3000")), max(10, left() - 150))
        out = os.path.join(WORK, "out-%s-%s-%d.json" % (prop, h, os.getpid()))
        r = run_linked(hf, bcs, h, out, tmo, int(hf.opt(h, "q", qms)), lpool)
        if os.path.exists(out): os.unlink(out)
        # a refuted obligation that fails in the real code too decides the property: stop the other proofs
        bad = [o for o in (r["json"] or {}).get("obligations", []) if o["status"] == "refuted" and o["replay"]
               and not any(k[1] == h and k[2] in o["function"] and k[3] in (o["label"] or o["kind"]) for k in kf)]
        if bad and not STOP and hf.native != ["no"]:
            native, err = native_build(hf, h, cf.ThreadPoolExecutor(4))
            if native:
                for i, o in enumerate(bad[:6]):
                    if confirm(native, o["replay"], os.path.join(rdir, "%s.%d.try" % (h, i)))[0]: stop_all(h); break
                os.unlink(native)
        return (hf, h, r["bcs"], r)
    kf = [k for k in known_findings() if k[0] == prop]
    results = list(pool.map(one, jobs))
    violations, findings, notes = [], [], []
    for hf, h, bcs, r in results:
        d = r["json"]
        r["verdict"] = "discharged"
        if d is None:
            r["verdict"] = "undecided"
            if STOP: r["verdict"] = "not needed"
            else: notes.append("%s: verifier gave no answer (rc %s)" % (h, r["rc"]))
        else:
            bad = [o for o in d["obligations"] if o["status"] == "refuted"]
            known = []
            for o in list(bad):
                for k in kf:
                    if k[1] == h and k[2] in o["function"] and k[3] in (o["label"] or o["kind"]):
                        known.append(k); bad.remove(o); break
            for k in known:
                if k not in findings: findings.append(k)
            unk = [o for o in d["obligations"] if o["status"] == "unknown"]
            unreached = [c for c in d["cover_sites"] if c not in d["covers"]]
            if bad:
                r["verdict"] = "refuted"; r["bad"] = bad
            elif d["undecided"] or unk:
                r["verdict"] = "undecided"
                notes.append("%s: undecided: %s" % (h, d["undecided"] or "; ".join("%s %s" % (o["function"], o["label"] or o["kind"]) for o in unk[:3])))
            elif unreached and not known:
                r["verdict"] = "vacuous"; r["unreached"] = unreached
    # ---- refuted: look for a concrete failing input against the real code
    order = {"refuted": 0, "vacuous": 1, "undecided": 2}
    for hf, h, bcs, r in sorted(results, key=lambda x: (x[1] != STOP, order.get(x[3]["verdict"], 9))):
        if r["verdict"] not in order: continue
        if violations and r["verdict"] != "refuted": continue
        if len(violations) >= 3 or any(not v[1] for v in violations): break
        native, err = native_build(hf, h, pool)
        if native is None: notes.append("%s: native build failed: %s" % (h, err[-300:]))
        hit = None
        tried = 0
        if r["verdict"] == "refuted" and native:
            for i, o in enumerate(r["bad"]):
                if not o["replay"]: continue
                tried += 1
                path = os.path.join(rdir, "%s.%d.in" % (h, i))
                ok, rc, out = confirm(native, o["replay"], path)
                if ok: hit = (o, path, out, "the verifier's counterexample"); break
            if not hit and d_has_cuts(r["json"]) and left() > 60:
                for B in (2, 5):
                    out = os.path.join(WORK, "bmc-%s-%s-%d.json" % (prop, h, os.getpid()))
                    b = run_vcx(bcs, h, out, min(60, max(5, left() - 60)), 8000, ["-B", str(B)])
                    if os.path.exists(out): os.unlink(out)
                    for i, o in enumerate((b["json"] or {}).get("obligations", [])):
                        if o["status"] != "refuted" or not o["replay"]: continue
                        tried += 1
                        path = os.path.join(rdir, "%s.b%d.%d.in" % (h, B, i))
                        ok, rc, txt = confirm(native, o["replay"], path)
                        if ok: hit = (o, path, txt, "the verifier's counterexample (loops unrolled %d times)" % B); break
                    if hit: break
        searched = None
        if not hit and native:
            secs = (12 if r["verdict"] == "refuted" else 25) if tier == "quick" else 240
            secs = int(max(3, min(secs, left() - 30)))
            path = os.path.join(rdir, "%s.rnd.in" % h)
            if os.path.exists(path): os.unlink(path)
            rc, out = run_native(native, ["random", str(seed), str(secs), path], secs + 60)
            searched = {"random": out.strip()[-200:]}
            if rc in (76, 77, 78) or (rc not in (0, 3, -9) and os.path.exists(path)):
                if not os.path.exists(path): path = dump(path, "(no trace written)")
                hit = ({"label": "", "kind": "concrete failure", "function": "", "loc": "", "detail": ""}, path, out, "bounded random search")
        if not hit and native and left() > 60:
            fb, err = native_build(hf, h, pool, fuzz=True)
            if fb:
                secs = 20 if tier == "quick" else 600
                path = os.path.join(rdir, "%s.fuzz.in" % h)
                procs = []
                for w in range(4):
                    p = path + str(w)
                    procs.append((p, subprocess.Popen([fb, "-seed=%d" % (seed * 10 + w + 1), "-max_total_time=%d" % secs, "-use_value_profile=1", "-max_len=1200", "-rss_limit_mb=3000", "-timeout=20", "-artifact_prefix=" + rdir + "/", "-print_final_stats=1"],
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(ASAN_ENV, VF_TRACE=p))))
                for p, pr in procs:
                    try: o, _ = pr.communicate(timeout=secs + 60)
                    except subprocess.TimeoutExpired: pr.kill(); o, _ = pr.communicate()
                    o = o.decode("utf8", "replace")
                    m = re.search(r"number_of_executed_units: (\d+)", o)
                    if m: searched = dict(searched or {}, fuzz_runs=int(m.group(1)) + int((searched or {}).get("fuzz_runs", 0)))
                    if pr.returncode != 0 and os.path.exists(p) and not hit:
                        # a trace must also fail in the plain replay
                        ok, rc, txt = confirm(native, open(p).read(), p + ".replay")
                        if ok: hit = ({"label": "", "kind": "concrete failure", "function": "", "loc": "", "detail": ""}, p, txt, "bounded coverage-guided search")
                os.unlink(fb)
        if native: os.unlink(native)
        r["searched"] = searched
        if hit:
            o, path, out, how = hit
            rp = os.path.join(rdir, "%s.violation.txt" % h)
            write_violation(rp, prop, hf, h, r, o, how, open(path).read(), out)
            violations.append((rp, ""))
        elif r["verdict"] in ("refuted", "vacuous"):
            rp = os.path.join(rdir, "%s.violation.txt" % h)
            write_violation(rp, prop, hf, h, r, None, None, "", "")
            violations.append((rp, " no-failing-input-found"))
    for k in findings: print("KNOWN-FINDING: property=%s %s" % (prop, k[4]))
    write_evidence(prop, tier, seed, files, results, t0, notes, len(violations))
    # concrete ones first
    violations.sort(key=lambda v: v[1])
    for n in notes: print("note:", n)
    nd = sum(1 for x in results if x[3]["verdict"] == "discharged")
    print("property %s: %d of %d harnesses discharged, %.0f s" % (prop, nd, len(results), time.time() - t0))
    if violations:
        # one line: a concrete failure wins over an unconfirmed one
        print("VIOLATION property=%s replay=%s%s" % (prop, violations[0][0], violations[0][1]))
        return 1
    return 0

def dump(p, t):
    open(p, "w").write(t); return p

def d_has_cuts(d): return bool(d and d.get("loops"))

def write_violation(path, prop, hf, h, r, o, how, inputs, out):
    with open(path, "w") as f:
        f.write("property %s, harness vfh_%s (%s)\n" % (prop, h, os.path.relpath(hf.path, V)))
        if r["verdict"] == "vacuous":
            f.write("behaviour required to be reachable is not reachable: %s\n" % ", ".join(r["unreached"]))
        for b in r.get("bad", []):
            f.write("\nFAILED OBLIGATION: [%s] %s\n  in %s (%s)\n%s\n" % (b["kind"], b["label"], b["function"], b["loc"], b["detail"]))
        if o is not None:
            f.write("\nCONFIRMED against the real code (clang, AddressSanitizer/UBSan) by %s\ninput, in the order the harness draws it (replay: python3 vf.py replay %s %s THIS-FILE):\n" % (how, hf.stem, h))
            f.write("BEGIN-INPUT\n" + inputs + "END-INPUT\n\noutput of the run:\n" + out[-6000:])
        else:
            f.write("\nno concrete failing input was found; the obligation above is not provable from the contracts on this source\nverifier's candidate inputs:\n")
            for b in r.get("bad", [])[:4]: f.write(b.get("replay", "") + "\n")
            f.write(r["log"])

def write_evidence(prop, tier, seed, files, results, t0, notes, nviol):
    man = {}
    try:
        for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]: man[c["property"]] = c
    except Exception: pass
    level = man.get(prop, {}).get("level", "proof")
    cov = {}
    ob = dis = bob = bdis = vcs = triv = smt = 0
    funcs, stubs, externs, loops, unrolled, invs, per, samples = {}, {}, {}, [], set(), set(), [], []
    ms = 0.0
    for hf, h, bcs, r in results:
        d = r["json"]
        if d is None:
            per.append({"harness": h, "verdict": r["verdict"], "wall_s": round(r["wall"], 1)}); continue
        n = len(d["obligations"]); k = sum(1 for o in d["obligations"] if o["status"] == "discharged")
        if d["undecided"]: k = 0
        if d["bounded"]: bob += n; bdis += k
        else: ob += n; dis += k
        for o in d["obligations"]:
            vcs += o["vcs"]; triv += o["trivial"]; smt += o["smt"]
            if o["kind"] == "contract" and len(samples) < 12: samples.append("%s: %s [%s]" % (h, o["label"], o["status"]))
        for f, c in d["functions"].items():
            if "srtc" in f or "stun" in f: funcs[f] = funcs.get(f, 0) + c
        for f, c in d["stubs"].items(): stubs[f] = stubs.get(f, 0) + c
        for f, c in d["externals"].items(): externs[f] = externs.get(f, 0) + c
        for l in d["loops"]: loops.append(dict(l, harness=h))
        unrolled |= set(d["unrolled_loops"]); invs |= set(d["user_invariants_used"])
        ms += d["stats"]["solver_ms"]
        per.append({"harness": h, "verdict": r["verdict"], "obligations": n, "discharged": k, "bounded": d["bounded"], "paths": d["stats"]["paths"],
                    "solver_calls": d["stats"]["solver_calls"], "solver_s": round(d["stats"]["solver_ms"] / 1000, 2), "wall_s": round(r["wall"], 1),
                    "covers_reached": sorted(d["covers"]), "search": r.get("searched")})
    cov.update({
        "obligations": ob, "discharged": dis, "checker_cmd": "engine/build/vcx <bitcode of /repo sources + harness> -H <harness>",
        "trusted_base": TRUSTED,
        "verification_conditions": {"total": vcs, "closed_by_constant_folding": triv, "closed_by_z3": smt},
        "bounded_obligations": bob, "bounded_discharged": bdis,
        "functions_under_contract": sorted(funcs), "loops_cut_by_invariant": loops, "loops_unrolled_completely": sorted(unrolled),
        "supplied_invariants_used": sorted(invs), "assumed_contracts": sorted(stubs), "external_functions_modelled": sorted(externs),
        "solver": "z3 (libz3 5.x, QF_UFBV)", "solver_seconds": round(ms / 1000, 2), "harnesses": per, "samples": samples, "notes": notes,
        "termination_unproved": sorted({"%s %s" % (l["function"], l["loc"]) for l in loops if l["termination_unproved"]}),
    })
    if level == "other": cov["explanation"] = man.get(prop, {}).get("level_note", "")
    if level == "exploration":
        cov.update({"evaluations": vcs, "distinct_nontrivial": smt, "rule": "verification conditions; non-trivial: needed the solver"})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": [a for f in files for a in f.assume], "wall_s": round(time.time() - t0, 1), "violations": nviol}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)

TRUSTED = [
    "vcx (engine/): symbolic semantics of LLVM IR, memory model, weakest-precondition style VC generation, loop rule; z3",
    "clang 18 front end at -O0 with SROA/EarlyCSE/SimplifyCFG/LoopSimplify (libstdc++ 13 headers are verified as compiled, not assumed)",
    "lib/rt.cpp: models of the out-of-line libstdc++ functions (std::list hooks, red-black tree, hash policy), clocks, random_device; srtc::log is a no-op",
    "memory allocation never fails; objects are smaller than 2^40 bytes; single-threaded execution of the verified function",
    "contracts in harness/*.cpp as the formal statement of the property",
]

def summarize(h, r):
    d = r["json"]
    print("=== %s rc=%d %.1fs" % (h, r["rc"], r["wall"]))
    if d is None: print(r["log"]); return
    n = len(d["obligations"])
    k = sum(1 for o in d["obligations"] if o["status"] == "discharged")
    print("   undecided=%s obligations %d/%d unreached=%s bounded=%s stats=%s" % (d["undecided"], k, n, [c for c in d["cover_sites"] if c not in d["covers"]], d["bounded"], d["stats"]))
    for l in d["loops"]: print("   loop %s %s inv=%d measure=%s unproved=%d" % (l["function"][:60], l["loc"], l["invariants"], l["measure"], l["termination_unproved"]))
    for o in d["obligations"]:
        if o["status"] != "discharged": print("   %s [%s] %s | %s %s\n%s\n%s" % (o["status"].upper(), o["kind"], o["label"], o["function"], o["loc"], o["detail"], o["replay"][:700]))
    ex = {k: v for k, v in d["externals"].items()}
    if ex: print("   externals:", ex)
    if d["stubs"]: print("   stubs:", d["stubs"])

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "setup": build_engine(); return 0
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a: tier = a[a.index("--tier") + 1]
        return check(a[1], tier)
    if a[0] == "run":
        build_engine()
        extra = []
        if "--" in a: i = a.index("--"); extra = a[i + 1:]; a = a[:i]
        verbose = "-v" in a
        a = [x for x in a if x != "-v"]
        hf = HFile(V + "/harness/" + a[1] + ".cpp")
        pool = cf.ThreadPoolExecutor(NCPU)
        try: bcs = bitcode(hf, pool)
        except BuildError as e: print(e); return 2
        hs = a[2:] or sh([VCX, "--list"] + bcs)[1].split()
        def one(h):
            out = WORK + "/dev-%s-%s.json" % (hf.stem, h)
            if verbose: subprocess.run([VCX] + bcs + ["-H", h, "-o", out, "-v", "-r", REPO] + extra); return h, {"rc": 0, "json": json.load(open(out)), "wall": 0, "log": ""}
            r = run_linked(hf, bcs, h, out, float(hf.opt(h, "time", "300")), int(hf.opt(h, "q", 20000)), cf.ThreadPoolExecutor(NCPU), extra)
            if len(r["bcs"]) > len(bcs): print("   (TUS should list %s)" % " ".join(hf.tus))
            return h, r
        for h, r in pool.map(one, hs): summarize(h, r)
        return 0
    if a[0] == "replay":
        hf = HFile(V + "/harness/" + a[1] + ".cpp")
        pool = cf.ThreadPoolExecutor(NCPU)
        b, e = native_build(hf, a[2], pool)
        if b is None: print(e); return 2
        t = open(a[3]).read()
        if "BEGIN-INPUT" in t: t = t.split("BEGIN-INPUT\n")[1].split("END-INPUT")[0]
        p = os.path.join(WORK, "replay.in"); open(p, "w").write(t)
        rc, out = run_native(b, ["replay", p], 60)
        print(out); print("exit", rc); os.unlink(b)
        return 1 if rc not in (0,) else 0
    if a[0] == "native": # random search natively on the current tree: nothing may be found where the proof holds
        hf = HFile(V + "/harness/" + a[1] + ".cpp")
        pool = cf.ThreadPoolExecutor(NCPU)
        hs = a[2:] or sh([VCX, "--list"] + bitcode(hf, pool))[1].split()
        def one(h):
            b, e = native_build(hf, h, cf.ThreadPoolExecutor(NCPU))
            if b is None: return h, e[-500:]
            p = os.path.join(WORK, "native-%s.in" % h)
            rc, out = run_native(b, ["random", "1", "5", p], 60); os.unlink(b)
            return h, "rc %d %s" % (rc, out[-400:])
        for h, r in pool.map(one, hs): print(h, r)
        return 0
    print(__doc__)
    return 2

if __name__ == "__main__":
    sys.exit(main())
